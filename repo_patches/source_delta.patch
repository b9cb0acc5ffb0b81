From b3be8e3f61f358de5589bbc5b6792fe985d86c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:26 +0000
Subject: [PATCH 01/66] fix: InducedGatedNonLinearity1 with drop_gates=False
 copied gates of the wrong shape

---
 escnn/nn/modules/nonlinearities/induced_gated1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/nonlinearities/induced_gated1.py b/escnn/nn/modules/nonlinearities/induced_gated1.py
index d8bd722..16f50a7 100644
--- a/escnn/nn/modules/nonlinearities/induced_gated1.py
+++ b/escnn/nn/modules/nonlinearities/induced_gated1.py
@@ -229,9 +229,9 @@ class InducedGatedNonLinearity1(EquivariantModule):
         if not self.drop_gates:
             # copy the gates in the output
             if self._contiguous[GATES_ID]:
-                output[:, self.gates_indices[0]:self.gates_indices[1], ...] = gates
+                output[:, self.gates_indices[0]:self.gates_indices[1], ...] = gates.view(b, -1, *spatial_dims)
             else:
-                output[:, self.gates_indices, ...] = gates
+                output[:, self.gates_indices, ...] = gates.view(b, -1, *spatial_dims)
         
         next_gate = 0
         
-- 
2.43.0


From de1b4839137611f996020029deb14472add475f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:26 +0000
Subject: [PATCH 02/66] fix: FieldDropout(inplace=True) had no effect on
 non-contiguous fields

---
 escnn/nn/modules/dropout/field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/escnn/nn/modules/dropout/field.py b/escnn/nn/modules/dropout/field.py
index 2e6e240..4f25571 100644
--- a/escnn/nn/modules/dropout/field.py
+++ b/escnn/nn/modules/dropout/field.py
@@ -156,9 +156,12 @@ class FieldDropout(EquivariantModule):
             else:
                 # otherwise we have to use indexing
                 out = dropout_field(input[:, indices, ...].view(shape), self.p, self.training, self.inplace)
+                shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
                 if not self.inplace:
-                    shape = input.shape[:1] + (self._nfields[s] * s, ) + input.shape[2:]
                     output[:, indices, ...] = out.view(shape)
+                else:
+                    # indexing returns a copy of the fields, which has to be written back
+                    input[:, indices, ...] = out.view(shape)
             
         if self.inplace:
             output = input
-- 
2.43.0


From 43d8cb3a7214cdf05ec2c0bea2d9a16f95eb8db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:34 +0000
Subject: [PATCH 03/66] fix: VectorFieldNonLinearity crashed with C_2, whose
 frequency 1 irrep is 1-dimensional

---
 escnn/nn/modules/nonlinearities/vectorfield.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/nonlinearities/vectorfield.py b/escnn/nn/modules/nonlinearities/vectorfield.py
index 82ce822..7d87007 100644
--- a/escnn/nn/modules/nonlinearities/vectorfield.py
+++ b/escnn/nn/modules/nonlinearities/vectorfield.py
@@ -89,8 +89,12 @@ class VectorFieldNonLinearity(EquivariantModule):
         
         # to build the output vectors, take the cosine and the sine of the argmax angle
         # and multiply the 2-dimensional vector by the activation value
-        output[:, ::2, ...] = torch.cos(max_angles) * max_activations
-        output[:, 1::2, ...] = torch.sin(max_angles) * max_activations
+        if self._rotations > 2:
+            output[:, ::2, ...] = torch.cos(max_angles) * max_activations
+            output[:, 1::2, ...] = torch.sin(max_angles) * max_activations
+        else:
+            # for C_2, the irrep of frequency 1 is 1-dimensional (a sign) and the sine is always 0
+            output[:] = torch.cos(max_angles) * max_activations
         
         # wrap the result in a GeometricTensor
         return GeometricTensor(output, self.out_type, input.coords)
-- 
2.43.0


From f8b5b26d9636c9f1f5cee256ee41785ff7b526a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:53 +0000
Subject: [PATCH 04/66] fix: GNormBatchNorm with a change of basis only
 accepted 2-dimensional feature maps

---
 escnn/nn/modules/batchnormalization/gnorm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/batchnormalization/gnorm.py b/escnn/nn/modules/batchnormalization/gnorm.py
index a3c922c..06e8a46 100644
--- a/escnn/nn/modules/batchnormalization/gnorm.py
+++ b/escnn/nn/modules/batchnormalization/gnorm.py
@@ -243,7 +243,7 @@ class GNormBatchNorm(EquivariantModule):
             
             if hasattr(self, f"{self._escape_name(name)}_change_of_basis_inv"):
                 cob_inv = getattr(self, f"{self._escape_name(name)}_change_of_basis_inv")
-                slice = torch.einsum("ds,bcsxy->bcdxy", (cob_inv, slice))
+                slice = torch.einsum("ds,bcs...->bcd...", (cob_inv, slice))
 
             if not self.track_running_stats:
                 means, vars = self._compute_statistics(slice, name)
@@ -290,7 +290,7 @@ class GNormBatchNorm(EquivariantModule):
             
             if hasattr(self, f"{self._escape_name(name)}_change_of_basis"):
                 cob = getattr(self, f"{self._escape_name(name)}_change_of_basis")
-                normalized = torch.einsum("ds,bcsxy->bcdxy", (cob, normalized))
+                normalized = torch.einsum("ds,bcs...->bcd...", (cob, normalized))
                 
             if not self._contiguous[name]:
                 output[:, indices, ...] = normalized.view(b, -1, *shape)
-- 
2.43.0


From f26d7016c2d60db5bd1800daf336ba922690febb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:53 +0000
Subject: [PATCH 05/66] fix: GNormBatchNorm crashed on non-contiguous fields
 with a change of basis

---
 escnn/nn/modules/batchnormalization/gnorm.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/escnn/nn/modules/batchnormalization/gnorm.py b/escnn/nn/modules/batchnormalization/gnorm.py
index 06e8a46..7a435b2 100644
--- a/escnn/nn/modules/batchnormalization/gnorm.py
+++ b/escnn/nn/modules/batchnormalization/gnorm.py
@@ -293,9 +293,9 @@ class GNormBatchNorm(EquivariantModule):
                 normalized = torch.einsum("ds,bcs...->bcd...", (cob, normalized))
                 
             if not self._contiguous[name]:
-                output[:, indices, ...] = normalized.view(b, -1, *shape)
+                output[:, indices, ...] = normalized.reshape(b, -1, *shape)
             else:
-                output[:, indices[0]:indices[1], ...] = normalized.view(b, -1, *shape)
+                output[:, indices[0]:indices[1], ...] = normalized.reshape(b, -1, *shape)
 
             # if self._contiguous[name]:
             #     slice2 = output[:, indices[0]:indices[1], ...]
@@ -335,10 +335,10 @@ class GNormBatchNorm(EquivariantModule):
         N = b * M
 
         # compute the mean of the trivial fields
-        trivial_means = t[:, :, trivial_idxs, ...].view(b, c, l, M).mean(dim=(0, 3), keepdim=False).detach()
+        trivial_means = t[:, :, trivial_idxs, ...].reshape(b, c, l, M).mean(dim=(0, 3), keepdim=False).detach()
         
         # compute the mean of squares of all channels
-        vars = (t ** 2).view(b, c, s, M).mean(dim=(0, 3), keepdim=False).detach()
+        vars = (t ** 2).reshape(b, c, s, M).mean(dim=(0, 3), keepdim=False).detach()
         
         # For the non-trivial fields the mean of the fields is 0, so we can compute the variance as the mean of the
         # norms squared.
-- 
2.43.0


From 9dc2957d29892904b02d843546982755a160270c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:13 +0000
Subject: [PATCH 06/66] fix: NormBatchNorm.reset_parameters crashed with
 affine=False

---
 escnn/nn/modules/batchnormalization/norm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/batchnormalization/norm.py b/escnn/nn/modules/batchnormalization/norm.py
index 8847ca7..b65ca30 100644
--- a/escnn/nn/modules/batchnormalization/norm.py
+++ b/escnn/nn/modules/batchnormalization/norm.py
@@ -140,8 +140,9 @@ class NormBatchNorm(EquivariantModule):
     def reset_parameters(self):
         self.reset_running_stats()
         for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.uniform_()
+            if self.affine:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.uniform_()
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
-- 
2.43.0


From bb3632241eeee3608013121024bda2ca4786b12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:13 +0000
Subject: [PATCH 07/66] fix: InducedNormBatchNorm.reset_parameters crashed with
 affine=False

---
 escnn/nn/modules/batchnormalization/induced_norm.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/batchnormalization/induced_norm.py b/escnn/nn/modules/batchnormalization/induced_norm.py
index 81ec69f..a790704 100644
--- a/escnn/nn/modules/batchnormalization/induced_norm.py
+++ b/escnn/nn/modules/batchnormalization/induced_norm.py
@@ -153,8 +153,9 @@ class InducedNormBatchNorm(EquivariantModule):
     def reset_parameters(self):
         self.reset_running_stats()
         for s in self._order:
-            weight = getattr(self, f"{s}_weight")
-            weight.data.fill_(1)
+            if self.affine:
+                weight = getattr(self, f"{s}_weight")
+                weight.data.fill_(1)
     
     def forward(self, input: GeometricTensor) -> GeometricTensor:
         r"""
-- 
2.43.0


From 897746ec5c430e87219ed4d3eb4d317880962be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:13 +0000
Subject: [PATCH 08/66] fix: InnerBatchNorm crashed on 0-dimensional base
 spaces and point clouds

---
 escnn/nn/modules/batchnormalization/inner.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/batchnormalization/inner.py b/escnn/nn/modules/batchnormalization/inner.py
index 5cdf486..f3bd059 100644
--- a/escnn/nn/modules/batchnormalization/inner.py
+++ b/escnn/nn/modules/batchnormalization/inner.py
@@ -145,6 +145,9 @@ class InnerBatchNorm(EquivariantModule):
         shape = input.tensor.shape[2:]
 
         output = torch.empty_like(input.tensor)
+
+        # batch norm modules expect a fixed number of dimensions: add the missing ones (0-D base space or point clouds)
+        padding = [1] * (max(1, self.in_type.gspace.dimensionality) - len(shape))
         
         # iterate through all field sizes
         for s, contiguous in self._contiguous.items():
@@ -155,12 +158,12 @@ class InnerBatchNorm(EquivariantModule):
             if contiguous:
                 # if the fields were contiguous, we can use slicing
                 output[:, indices[0]:indices[1], ...] = batchnorm(
-                    input.tensor[:, indices[0]:indices[1], ...].view(b, -1, s, *shape)
+                    input.tensor[:, indices[0]:indices[1], ...].view(b, -1, s, *shape, *padding)
                 ).view(b, -1, *shape)
             else:
                 # otherwise we have to use indexing
                 output[:, indices, ...] = batchnorm(
-                    input.tensor[:, indices].view(b, -1, s, *shape)
+                    input.tensor[:, indices].view(b, -1, s, *shape, *padding)
                 ).view(b, -1, *shape)
 
         # wrap the result in a GeometricTensor
-- 
2.43.0


From 7913f86cf8b83d5a73ec9f1888ee13d0ff8e4192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:23 +0000
Subject: [PATCH 09/66] fix: MergeModule crashed when its first submodule takes
 more than one input

---
 escnn/nn/modules/merge_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/nn/modules/merge_module.py b/escnn/nn/modules/merge_module.py
index 1e5eb48..f4a7c97 100644
--- a/escnn/nn/modules/merge_module.py
+++ b/escnn/nn/modules/merge_module.py
@@ -52,7 +52,7 @@ class MergeModule(EquivariantModule):
             labels += modules[i][1]
         
         self.in_type = None
-        self.gspace = modules[0][0].in_type.gspace
+        self.gspace = modules[0][0].out_type.gspace
         
         out_repr = []
         
-- 
2.43.0


From db1cd891d7f0e39e54352845cbce638087412e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:23 +0000
Subject: [PATCH 10/66] fix: GatedNonLinearity2.evaluate_output_shape only
 accepted 2-dimensional feature maps

---
 escnn/nn/modules/nonlinearities/gated2.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/escnn/nn/modules/nonlinearities/gated2.py b/escnn/nn/modules/nonlinearities/gated2.py
index e954ad6..de39650 100644
--- a/escnn/nn/modules/nonlinearities/gated2.py
+++ b/escnn/nn/modules/nonlinearities/gated2.py
@@ -210,18 +210,19 @@ class GatedNonLinearity2(EquivariantModule):
         assert len(input_shapes) == 2
         gates_shape, input_shape = input_shapes
         
-        assert len(gates_shape) == 4
+        assert len(gates_shape) >= 2
         assert gates_shape[1] == self.in_type[0].size
 
-        assert len(input_shape) == 4
+        assert len(input_shape) >= 2
         assert input_shape[1] == self.in_type[1].size
         
         assert gates_shape[0] == input_shape[0]
         assert gates_shape[2:] == input_shape[2:]
 
-        b, c, hi, wi = input_shape
+        b, c = input_shape[:2]
+        spatial_shape = input_shape[2:]
 
-        return b, self.out_type.size, hi, wi
+        return (b, self.out_type.size, *spatial_shape)
         
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
-- 
2.43.0


From 990079f7d9e4f6d64e76aba89faf60d684a5ce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:23 +0000
Subject: [PATCH 11/66] fix: BranchingModule.evaluate_output_shape only
 accepted 2-dimensional feature maps

---
 escnn/nn/modules/branching_module.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/escnn/nn/modules/branching_module.py b/escnn/nn/modules/branching_module.py
index fb59aed..af5dcc9 100644
--- a/escnn/nn/modules/branching_module.py
+++ b/escnn/nn/modules/branching_module.py
@@ -219,12 +219,13 @@ class BranchingModule(EquivariantModule):
         return output
 
     def evaluate_output_shape(self, input_shape: Tuple[int, ...]) -> Dict[Any, Tuple[int, ...]]:
-        assert len(input_shape) == 4
+        assert len(input_shape) >= 2
         assert input_shape[1] == self.in_type.size
     
-        b, c, hi, wi = input_shape
+        b, c = input_shape[:2]
+        spatial_shape = input_shape[2:]
     
-        return {l: (b, repr.size, hi, wi) for l, repr in self.out_type.items()}
+        return {l: (b, repr.size, *spatial_shape) for l, repr in self.out_type.items()}
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
     
-- 
2.43.0


From 4bc1515cfa00302181704cfc70f24016d1f4770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:23 +0000
Subject: [PATCH 12/66] fix: MultipleModule.evaluate_output_shape crashed
 passing the shapes of its branches

---
 escnn/nn/modules/multiple_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/nn/modules/multiple_module.py b/escnn/nn/modules/multiple_module.py
index a132433..5d92ca6 100644
--- a/escnn/nn/modules/multiple_module.py
+++ b/escnn/nn/modules/multiple_module.py
@@ -126,7 +126,7 @@ class MultipleModule(EquivariantModule):
         
         branches_shapes = self.branching.evaluate_output_shape(input_shape)
         
-        out_shape = self.merging.evaluate_output_shape(branches_shapes)
+        out_shape = self.merging.evaluate_output_shape(**branches_shapes)
         
         return out_shape
 
-- 
2.43.0


From ddc7f59e6366f413c805f45ec5ab17ca619be8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:23 +0000
Subject: [PATCH 13/66] fix: MergeModule.evaluate_output_shape returned a list
 instead of a tuple

---
 escnn/nn/modules/merge_module.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/nn/modules/merge_module.py b/escnn/nn/modules/merge_module.py
index f4a7c97..2bf8d3e 100644
--- a/escnn/nn/modules/merge_module.py
+++ b/escnn/nn/modules/merge_module.py
@@ -131,7 +131,7 @@ class MergeModule(EquivariantModule):
             
             out_shape[1] += os[1]
         
-        return out_shape
+        return tuple(out_shape)
 
     def check_equivariance(self, atol: float = 1e-6, rtol: float = 1e-5) -> List[Tuple[Any, float]]:
         pass
\ No newline at end of file
-- 
2.43.0


From 2274267a20a4052b39187d8537e6c06b8d03bdda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:18 +0000
Subject: [PATCH 14/66] fix: R2Conv.export and R3Conv.export ignored
 padding_mode

---
 escnn/nn/modules/conv/r2convolution.py | 3 ++-
 escnn/nn/modules/conv/r3convolution.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/conv/r2convolution.py b/escnn/nn/modules/conv/r2convolution.py
index 3c0c3ef..402a109 100644
--- a/escnn/nn/modules/conv/r2convolution.py
+++ b/escnn/nn/modules/conv/r2convolution.py
@@ -367,7 +367,8 @@ class R2Conv(_RdConv):
                                stride=self.stride,
                                dilation=self.dilation,
                                groups=self.groups,
-                               bias=has_bias)
+                               bias=has_bias,
+                               padding_mode=self.padding_mode)
 
         # set the filter and the bias
         conv.weight.data = _filter.data
diff --git a/escnn/nn/modules/conv/r3convolution.py b/escnn/nn/modules/conv/r3convolution.py
index 4ae314b..d7f6a2f 100644
--- a/escnn/nn/modules/conv/r3convolution.py
+++ b/escnn/nn/modules/conv/r3convolution.py
@@ -360,7 +360,8 @@ class R3Conv(_RdConv):
                                stride=self.stride,
                                dilation=self.dilation,
                                groups=self.groups,
-                               bias=has_bias)
+                               bias=has_bias,
+                               padding_mode=self.padding_mode)
     
         # set the filter and the bias
         conv.weight.data = _filter.data
-- 
2.43.0


From e393174d78bd81469d0bd533f6a703161541814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:18 +0000
Subject: [PATCH 15/66] fix: R2ConvTransposed.export and
 R3ConvTransposed.export ignored output_padding

---
 escnn/nn/modules/conv/r2_transposed_convolution.py | 1 +
 escnn/nn/modules/conv/r3_transposed_convolution.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/escnn/nn/modules/conv/r2_transposed_convolution.py b/escnn/nn/modules/conv/r2_transposed_convolution.py
index ed85aff..cd785df 100644
--- a/escnn/nn/modules/conv/r2_transposed_convolution.py
+++ b/escnn/nn/modules/conv/r2_transposed_convolution.py
@@ -270,6 +270,7 @@ class R2ConvTransposed(_RdConvTransposed):
                                        self.out_type.size,
                                        self.kernel_size,
                                        padding=self.padding,
+                                       output_padding=self.output_padding,
                                        stride=self.stride,
                                        dilation=self.dilation,
                                        groups=self.groups,
diff --git a/escnn/nn/modules/conv/r3_transposed_convolution.py b/escnn/nn/modules/conv/r3_transposed_convolution.py
index c048152..6ebb9e6 100644
--- a/escnn/nn/modules/conv/r3_transposed_convolution.py
+++ b/escnn/nn/modules/conv/r3_transposed_convolution.py
@@ -384,6 +384,7 @@ class R3ConvTransposed(_RdConvTransposed):
                                        self.out_type.size,
                                        self.kernel_size,
                                        padding=self.padding,
+                                       output_padding=self.output_padding,
                                        stride=self.stride,
                                        dilation=self.dilation,
                                        groups=self.groups,
-- 
2.43.0


From d91aa07cf07d3e4639c0a216b95068924e2c36a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:18 +0000
Subject: [PATCH 16/66] fix: PointwiseMaxPool.export ignored ceil_mode

---
 escnn/nn/modules/pooling/pointwise_max.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/pooling/pointwise_max.py b/escnn/nn/modules/pooling/pointwise_max.py
index 7fe1503..88d9140 100644
--- a/escnn/nn/modules/pooling/pointwise_max.py
+++ b/escnn/nn/modules/pooling/pointwise_max.py
@@ -169,9 +169,9 @@ class _PointwiseMaxPoolND(EquivariantModule):
         self.eval()
 
         if self.d == 2:
-            return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation).eval()
+            return torch.nn.MaxPool2d(self.kernel_size, self.stride, self.padding, self.dilation, ceil_mode=self.ceil_mode).eval()
         elif self.d == 3:
-            return torch.nn.MaxPool3d(self.kernel_size, self.stride, self.padding, self.dilation).eval()
+            return torch.nn.MaxPool3d(self.kernel_size, self.stride, self.padding, self.dilation, ceil_mode=self.ceil_mode).eval()
         else:
             raise NotImplementedError
 
-- 
2.43.0


From ad166b24dcd0e6fdece034efbffd4ba9a675e0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:18 +0000
Subject: [PATCH 17/66] fix: GNormBatchNorm.export always produced a
 BatchNorm3d, whatever the dimensionality of the base space

---
 escnn/nn/modules/batchnormalization/gnorm.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/escnn/nn/modules/batchnormalization/gnorm.py b/escnn/nn/modules/batchnormalization/gnorm.py
index 7a435b2..e2a6723 100644
--- a/escnn/nn/modules/batchnormalization/gnorm.py
+++ b/escnn/nn/modules/batchnormalization/gnorm.py
@@ -427,7 +427,16 @@ class GNormBatchNorm(EquivariantModule):
 
         self.eval()
 
-        batchnorm = torch.nn.BatchNorm3d(
+        if self.in_type.gspace.dimensionality in [0, 1]:
+            bnorm_class = torch.nn.BatchNorm1d
+        elif self.in_type.gspace.dimensionality == 2:
+            bnorm_class = torch.nn.BatchNorm2d
+        elif self.in_type.gspace.dimensionality == 3:
+            bnorm_class = torch.nn.BatchNorm3d
+        else:
+            raise NotImplementedError
+
+        batchnorm = bnorm_class(
             self.in_type.size,
             self.eps,
             self.momentum,
-- 
2.43.0


From 8290cdb26344b2dc1d8ce8e3f24cebea83945656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:57 +0000
Subject: [PATCH 18/66] fix: evaluate_output_shape of max and average pooling
 ignored PyTorch's last window rule in ceil_mode

---
 escnn/nn/modules/pooling/pointwise_avg.py    | 5 +++++
 escnn/nn/modules/pooling/pointwise_avg_3d.py | 7 +++++++
 escnn/nn/modules/pooling/pointwise_max.py    | 5 +++++
 3 files changed, 17 insertions(+)

diff --git a/escnn/nn/modules/pooling/pointwise_avg.py b/escnn/nn/modules/pooling/pointwise_avg.py
index 29c92c0..2147da3 100644
--- a/escnn/nn/modules/pooling/pointwise_avg.py
+++ b/escnn/nn/modules/pooling/pointwise_avg.py
@@ -117,6 +117,11 @@ class PointwiseAvgPool2D(EquivariantModule):
         if self.ceil_mode:
             ho = math.ceil(ho)
             wo = math.ceil(wo)
+            # PyTorch drops the last window if it starts inside the right padding
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
         else:
             ho = math.floor(ho)
             wo = math.floor(wo)
diff --git a/escnn/nn/modules/pooling/pointwise_avg_3d.py b/escnn/nn/modules/pooling/pointwise_avg_3d.py
index 045006f..9abbb2b 100644
--- a/escnn/nn/modules/pooling/pointwise_avg_3d.py
+++ b/escnn/nn/modules/pooling/pointwise_avg_3d.py
@@ -114,6 +114,13 @@ class PointwiseAvgPool3D(EquivariantModule):
             ho = math.ceil(ho)
             wo = math.ceil(wo)
             do = math.ceil(do)
+            # PyTorch drops the last window if it starts inside the right padding
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
+            if (do - 1) * self.stride[2] >= di + self.padding[2]:
+                do -= 1
         else:
             ho = math.floor(ho)
             wo = math.floor(wo)
diff --git a/escnn/nn/modules/pooling/pointwise_max.py b/escnn/nn/modules/pooling/pointwise_max.py
index 88d9140..7e41fd8 100644
--- a/escnn/nn/modules/pooling/pointwise_max.py
+++ b/escnn/nn/modules/pooling/pointwise_max.py
@@ -147,6 +147,11 @@ class _PointwiseMaxPoolND(EquivariantModule):
                 math.ceil(shape_o[i])
                 for i in range(self.d)
             )
+            # PyTorch drops the last window if it starts inside the right padding
+            shape_o = tuple(
+                o - 1 if (o - 1) * self.stride[i] >= shape_i[i] + self.padding[i] else o
+                for i, o in enumerate(shape_o)
+            )
         else:
             shape_o = tuple(
                 math.floor(shape_o[i])
-- 
2.43.0


From 5dd981ab3d23699443c8d795a8b49081a9c4b3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:57 +0000
Subject: [PATCH 19/66] fix: NormMaxPool.evaluate_output_shape ignored
 ceil_mode, which also made forward crash

---
 escnn/nn/modules/pooling/norm_max.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/escnn/nn/modules/pooling/norm_max.py b/escnn/nn/modules/pooling/norm_max.py
index f47d8f7..675b989 100644
--- a/escnn/nn/modules/pooling/norm_max.py
+++ b/escnn/nn/modules/pooling/norm_max.py
@@ -225,10 +225,20 @@ class NormMaxPool(EquivariantModule):
         b, c, hi, wi = input_shape
 
         # compute the output shape (see 'torch.nn.MaxPool2D')
-        ho = math.floor(
-            (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1)
-        wo = math.floor(
-            (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1)
+        ho = (hi + 2 * self.padding[0] - self.dilation[0] * (self.kernel_size[0] - 1) - 1) / self.stride[0] + 1
+        wo = (wi + 2 * self.padding[1] - self.dilation[1] * (self.kernel_size[1] - 1) - 1) / self.stride[1] + 1
+
+        if self.ceil_mode:
+            ho = math.ceil(ho)
+            wo = math.ceil(wo)
+            # PyTorch drops the last window if it starts inside the right padding
+            if (ho - 1) * self.stride[0] >= hi + self.padding[0]:
+                ho -= 1
+            if (wo - 1) * self.stride[1] >= wi + self.padding[1]:
+                wo -= 1
+        else:
+            ho = math.floor(ho)
+            wo = math.floor(wo)
 
         return b, self.out_type.size, ho, wo
         
-- 
2.43.0


From 10d86ab4abe4605c25d0fe0526f16b934728027c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:57 +0000
Subject: [PATCH 20/66] fix: PointwiseMaxPoolAntialiased.evaluate_output_shape
 ignored the blurring convolution

---
 escnn/nn/modules/pooling/pointwise_max.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/escnn/nn/modules/pooling/pointwise_max.py b/escnn/nn/modules/pooling/pointwise_max.py
index 7e41fd8..e4c2543 100644
--- a/escnn/nn/modules/pooling/pointwise_max.py
+++ b/escnn/nn/modules/pooling/pointwise_max.py
@@ -289,6 +289,26 @@ class _PointwiseMaxPoolAntialiasedND(_PointwiseMaxPoolND):
         # wrap the result in a GeometricTensor
         return GeometricTensor(output, self.out_type, coords=None)
 
+    def evaluate_output_shape(self, input_shape: Tuple) -> Tuple:
+        assert len(input_shape) == 2 + self.d, (input_shape, self.d)
+        assert input_shape[1] == self.in_type.size
+
+        b = input_shape[0]
+        shape_i = input_shape[2:]
+        filter_size = self.filter.shape[2:]
+
+        # dense max pooling (stride = 1), followed by the strided blurring convolution
+        shape_o = tuple(
+            shape_i[i] + 2 * self.padding[i] - self.dilation[i] * (self.kernel_size[i] - 1)
+            for i in range(self.d)
+        )
+        shape_o = tuple(
+            (shape_o[i] + 2 * self._pad[i] - filter_size[i]) // self.stride[i] + 1
+            for i in range(self.d)
+        )
+
+        return (b, self.out_type.size, *shape_o)
+
     def export(self):
         raise NotImplementedError
 
-- 
2.43.0


From f48165e5eb8eab7c29ea99ef2aa7aeb0f4964dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:57 +0000
Subject: [PATCH 21/66] fix: evaluate_output_shape of the point convolutions
 rejected the shape of their inputs

---
 escnn/nn/modules/pointconv/rd_point_convolution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/pointconv/rd_point_convolution.py b/escnn/nn/modules/pointconv/rd_point_convolution.py
index 55de19c..8912c4a 100644
--- a/escnn/nn/modules/pointconv/rd_point_convolution.py
+++ b/escnn/nn/modules/pointconv/rd_point_convolution.py
@@ -376,10 +376,10 @@ class _RdPointConv(torch_geometric.nn.MessagePassing, EquivariantModule, ABC):
         return super(_RdPointConv, self).train(mode)
 
     def evaluate_output_shape(self, input_shape: Tuple) -> Tuple:
-        assert len(input_shape) == 3
+        assert len(input_shape) == 2
         assert input_shape[1] == self.in_type.size
 
-        return input_shape[0], self.out_type.size, input_shape[2]
+        return input_shape[0], self.out_type.size
 
     def __repr__(self):
         extra_lines = []
-- 
2.43.0


From a38d78d4471a2b5baf6054d25fa79d4473968c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:55 +0000
Subject: [PATCH 22/66] fix: GeometricTensor accepted integer indices out of
 bounds, returning empty or unrelated entries

---
 escnn/nn/geometric_tensor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/escnn/nn/geometric_tensor.py b/escnn/nn/geometric_tensor.py
index 8026225..61531c4 100644
--- a/escnn/nn/geometric_tensor.py
+++ b/escnn/nn/geometric_tensor.py
@@ -561,6 +561,10 @@ class GeometricTensor:
         for i in range(len(expanded_idxs)):
             if isinstance(expanded_idxs[i], int):
                 idx = expanded_idxs[i]
+                if idx < -idx_max[i] or (i == 1 and idx >= idx_max[i]):
+                    raise IndexError(
+                        f'index {idx} is out of bounds for dimension {i} with size {idx_max[i]}'
+                    )
                 if idx < 0:
                     # convert a negative index into a positive index
                     idx = idx_max[i] + idx
-- 
2.43.0


From 160f2ad4af07bf37afc71368737d3aa001d05d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:55 +0000
Subject: [PATCH 23/66] fix: GeometricTensor crashed on slices over the fields
 with bounds out of range

---
 escnn/nn/geometric_tensor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/geometric_tensor.py b/escnn/nn/geometric_tensor.py
index 61531c4..a223b5b 100644
--- a/escnn/nn/geometric_tensor.py
+++ b/escnn/nn/geometric_tensor.py
@@ -581,8 +581,10 @@ class GeometricTensor:
             # contiguous slice over the channels.
             # The slice will start from the first channel of the first field and will stop at the last channel
             # of the last field
-            start = expanded_idxs[1].start if expanded_idxs[1].start is not None else 0
-            stop = expanded_idxs[1].stop if expanded_idxs[1].stop is not None else len(self.type)
+            # Negative and out of range bounds are resolved as usual in Python.
+            start, stop, _ = expanded_idxs[1].indices(len(self.type))
+            if stop <= start:
+                raise IndexError('Error! The slice over the fields is empty.')
             channel_idxs = slice(
                 self.type.fields_start[start],
                 self.type.fields_end[stop-1],
-- 
2.43.0


From bd7e28f70d1e5e96656ed3733b01161d90ce3dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:04 +0000
Subject: [PATCH 24/66] fix: GeometricTensor.split crashed when breaks is None
 or starts with 0 as documented, and modified its argument

---
 escnn/nn/geometric_tensor.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/geometric_tensor.py b/escnn/nn/geometric_tensor.py
index a223b5b..281a2e7 100644
--- a/escnn/nn/geometric_tensor.py
+++ b/escnn/nn/geometric_tensor.py
@@ -350,8 +350,15 @@ class GeometricTensor:
             
         """
         if breaks is None:
-            breaks = list(range(len(self.type)))
-            
+            breaks = range(len(self.type))
+
+        # do not modify the list passed by the user
+        breaks = list(breaks)
+
+        # the first tensor always starts from the first field
+        if len(breaks) > 0 and breaks[0] == 0:
+            breaks = breaks[1:]
+
         breaks.append(len(self.type))
         
         # final list of tensors
-- 
2.43.0


From 805698190fd336873590df78094b45a212b52b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:00 +0000
Subject: [PATCH 25/66] fix: CyclicGroup inverted elements given in a
 parametrization other than 'int' without converting them

---
 escnn/group/groups/cyclicgroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/cyclicgroup.py b/escnn/group/groups/cyclicgroup.py
index f6772ba..b2c9a1b 100644
--- a/escnn/group/groups/cyclicgroup.py
+++ b/escnn/group/groups/cyclicgroup.py
@@ -116,7 +116,7 @@ class CyclicGroup(Group):
             its opposite :math:`r^{-j \mod N}`
             
         """
-        self._change_param(element, param, 'int')
+        element = self._change_param(element, param, 'int')
         element = (-element) % self.N
         return self._change_param(element, 'int', param)
 
-- 
2.43.0


From 3993aa265cc13c9983b6f8bca0317b350aa9eaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:00 +0000
Subject: [PATCH 26/66] fix: CyclicGroup lost the sign of the angle of an
 element given as a matrix

---
 escnn/group/groups/cyclicgroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/cyclicgroup.py b/escnn/group/groups/cyclicgroup.py
index b2c9a1b..5148a94 100644
--- a/escnn/group/groups/cyclicgroup.py
+++ b/escnn/group/groups/cyclicgroup.py
@@ -198,7 +198,7 @@ class CyclicGroup(Group):
             assert np.allclose(element @ element.T, np.eye(2))
     
             cos = (element[0, 0] + element[1, 1]) / 2.
-            sin = (element[1, 0] - element[1, 0]) / 2.
+            sin = (element[1, 0] - element[0, 1]) / 2.
     
             element = np.arctan2(sin, cos)
             p_from = 'radians'
-- 
2.43.0


From 9fe957fee78afb14eae3cb05619920dbba92abff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:00 +0000
Subject: [PATCH 27/66] fix: DihedralGroup lost the sign of the angle of a
 rotation given as a matrix

---
 escnn/group/groups/dihedralgroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/dihedralgroup.py b/escnn/group/groups/dihedralgroup.py
index 3c5073f..dade72c 100644
--- a/escnn/group/groups/dihedralgroup.py
+++ b/escnn/group/groups/dihedralgroup.py
@@ -231,7 +231,7 @@ class DihedralGroup(Group):
             assert np.allclose(rotation @ rotation.T, np.eye(2))
     
             cos = (rotation[0, 0] + rotation[1, 1]) / 2.
-            sin = (rotation[1, 0] - rotation[1, 0]) / 2.
+            sin = (rotation[1, 0] - rotation[0, 1]) / 2.
     
             rotation = np.arctan2(sin, cos)
             p_from = 'radians'
-- 
2.43.0


From a5172a0ba21b2af04044ceb0debfc192904c0dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:01 +0000
Subject: [PATCH 28/66] fix: restricting an SO(2) element close to 2 pi to a
 cyclic subgroup built an out of range element

---
 escnn/group/groups/so2group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/so2group.py b/escnn/group/groups/so2group.py
index 4f68e3b..4208e05 100644
--- a/escnn/group/groups/so2group.py
+++ b/escnn/group/groups/so2group.py
@@ -579,7 +579,7 @@ def _build_child_map(sg: 'CyclicGroup'):
         if not utils.cycle_isclose(radians, 0., 2. * np.pi / sg.order()):
             return None
         else:
-            return sg.element(int(round(radians * sg.order() / (2. * np.pi))))
+            return sg.element(int(round(radians * sg.order() / (2. * np.pi))) % sg.order())
 
     return child_mapping
 
-- 
2.43.0


From 92cd16067c3b21f668990d1f0ff71f4761c0106a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:01 +0000
Subject: [PATCH 29/66] fix: restricting an O(2) element to a dihedral subgroup
 built out of range elements

---
 escnn/group/groups/o2group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/escnn/group/groups/o2group.py b/escnn/group/groups/o2group.py
index 1f60772..8bbb89d 100644
--- a/escnn/group/groups/o2group.py
+++ b/escnn/group/groups/o2group.py
@@ -848,7 +848,8 @@ def o2_to_dn(axis: float, dn: escnn.group.DihedralGroup):
         f, rot = e.to('radians')
 
         if utils.cycle_isclose(rot - f * axis, 0., 2. * np.pi / dn.rotation_order):
-            return dn.element((f, int(round((rot - f * axis) * dn.rotation_order / (2. * np.pi)))))
+            rot = int(round((rot - f * axis) * dn.rotation_order / (2. * np.pi))) % dn.rotation_order
+            return dn.element((f, rot))
         else:
             return None
 
-- 
2.43.0


From 9cb3d30a445ef0ad02ea6cb8bfd715d82bbe1fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:01 +0000
Subject: [PATCH 30/66] fix: the maps between a dihedral group and its dihedral
 subgroups with a rotated axis built out of range elements

---
 escnn/group/groups/dihedralgroup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/group/groups/dihedralgroup.py b/escnn/group/groups/dihedralgroup.py
index dade72c..62a9271 100644
--- a/escnn/group/groups/dihedralgroup.py
+++ b/escnn/group/groups/dihedralgroup.py
@@ -787,7 +787,7 @@ def dn_to_dm(axis: int, dm: escnn.group.DihedralGroup):
         if (rot - f*axis) % ratio != 0:
             return None
         else:
-            return dm.element((f, (rot - f*axis) // ratio), 'int')
+            return dm.element((f, ((rot - f*axis) // ratio) % dm.rotation_order), 'int')
 
     return _map
 
@@ -801,7 +801,7 @@ def dm_to_dn(axis: int, dn: DihedralGroup):
 
         ratio = dn.rotation_order // e.group.rotation_order
 
-        return dn.element((f, rot * ratio + f * axis), 'int')
+        return dn.element((f, (rot * ratio + f * axis) % dn.rotation_order), 'int')
 
     return _map
 
-- 
2.43.0


From 48c5d8125ec66d8982f8085c789cb35704941f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:01 +0000
Subject: [PATCH 31/66] fix: DihedralGroup combined subgroups into an id whose
 flip axis is out of range

---
 escnn/group/groups/dihedralgroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/dihedralgroup.py b/escnn/group/groups/dihedralgroup.py
index 62a9271..63f437b 100644
--- a/escnn/group/groups/dihedralgroup.py
+++ b/escnn/group/groups/dihedralgroup.py
@@ -379,7 +379,7 @@ class DihedralGroup(Group):
             return sg_id2
         else:
             flip = sg_id1[0] + inclusion(sg1.element((0, sg_id2[0]))).to('int')[1]
-            return (flip,) + sg_id2[1:]
+            return (flip % self.rotation_order,) + sg_id2[1:]
 
     def _restrict_irrep(self, irrep: Tuple, id: Tuple[int, int]) -> Tuple[np.matrix, List[Tuple]]:
         r"""
-- 
2.43.0


From c79af93ae0c9665757aba33b24fe8e193d6c7871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:01 +0000
Subject: [PATCH 32/66] fix: O2 combined subgroups into an id whose flip axis
 is out of range

---
 escnn/group/groups/o2group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/o2group.py b/escnn/group/groups/o2group.py
index 8bbb89d..04558ed 100644
--- a/escnn/group/groups/o2group.py
+++ b/escnn/group/groups/o2group.py
@@ -422,7 +422,7 @@ class O2(Group):
             return sg_id2
         else:
             flip = sg_id1[0] + inclusion(sg1.element((0, sg_id2[0]))).to('radians')[1]
-            return (flip,) + sg_id2[1:]
+            return (flip % (2 * np.pi),) + sg_id2[1:]
 
     def _restrict_irrep(self, irrep: Tuple, id: Tuple[int, int]) -> Tuple[np.matrix, List[Tuple]]:
         r"""
-- 
2.43.0


From fdc2e78a8bc86979231134e31fb36d706b640e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:01 +0000
Subject: [PATCH 33/66] fix: restriction to a subgroup H1 x H2 of a direct
 product mapped both factors to H2

---
 escnn/group/directproduct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/directproduct.py b/escnn/group/directproduct.py
index a16c3ca..ff8a6e5 100644
--- a/escnn/group/directproduct.py
+++ b/escnn/group/directproduct.py
@@ -489,7 +489,7 @@ class DirectProductGroup(Group):
             return H1, inclusion_left(self, H1, parent1), restrict_left(self, H1, child1)
         else:
             H = direct_product(H1, H2)
-            return H, inclusion(self, H, parent1, parent2), restrict(self, H, child2, child2)
+            return H, inclusion(self, H, parent1, parent2), restrict(self, H, child1, child2)
 
     def _combine_subgroups(self, sg_id1, sg_id2):
         assert isinstance(sg_id1, tuple) and len(sg_id1) == 2
-- 
2.43.0


From 47c55a12ec5f9c51d73bd56b44f4acd8bc456ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:01 +0000
Subject: [PATCH 34/66] fix: DirectProductGroup could not combine subgroups
 when one of the two factors is trivial

---
 escnn/group/directproduct.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/escnn/group/directproduct.py b/escnn/group/directproduct.py
index ff8a6e5..b0179fa 100644
--- a/escnn/group/directproduct.py
+++ b/escnn/group/directproduct.py
@@ -493,6 +493,17 @@ class DirectProductGroup(Group):
 
     def _combine_subgroups(self, sg_id1, sg_id2):
         assert isinstance(sg_id1, tuple) and len(sg_id1) == 2
+
+        H1, _, _ = self.G1.subgroup(sg_id1[0])
+        H2, _, _ = self.G2.subgroup(sg_id1[1])
+
+        # if one of the two factors is trivial, the subgroup is just the other factor (see `_subgroup()`) and not a
+        # direct product
+        if H1.order() == 1:
+            sg_id2 = (H1.subgroup_trivial_id, sg_id2)
+        elif H2.order() == 1:
+            sg_id2 = (sg_id2, H2.subgroup_trivial_id)
+
         assert isinstance(sg_id2, tuple) and len(sg_id2) == 2
 
         id = (
-- 
2.43.0


From a7353eae88cacf03c0298c0a517805b2efda5b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:01 +0000
Subject: [PATCH 35/66] fix: restriction of an irrep of the octahedral group to
 the trivial subgroup used a non-existing irrep

---
 escnn/group/groups/octa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/octa.py b/escnn/group/groups/octa.py
index f9f95f8..cf3f00f 100644
--- a/escnn/group/groups/octa.py
+++ b/escnn/group/groups/octa.py
@@ -304,7 +304,7 @@ class Octahedral(Group):
                 irreps = irr.irreps
             elif sg_id == (False, 1):
                 change_of_basis = np.eye(irr.size)
-                irreps = [(1,)]*irr.size
+                irreps = [(0,)]*irr.size
             else:
                 raise NotImplementedError()
 
-- 
2.43.0


From 72fa44d7899625d13863751686faf15fbb5df0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:01 +0000
Subject: [PATCH 36/66] fix: the conical subgroups of O(3) with a flip axis
 were built with the opposite axis

---
 escnn/group/groups/o3group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/o3group.py b/escnn/group/groups/o3group.py
index ede614f..3aed731 100644
--- a/escnn/group/groups/o3group.py
+++ b/escnn/group/groups/o3group.py
@@ -496,7 +496,7 @@ class O3(Group):
             flip_axis = id[1] / 2.
             flip = np.asarray([0., 0., np.sin(flip_axis / 2), np.cos(flip_axis / 2)])
             adj = id[-1]
-            adj = self.element((0, flip), 'Q') @ adj
+            adj = (~self.element((0, flip), 'Q')) @ adj
             id = ('cone', id[2], adj)
 
         return id
-- 
2.43.0


From 56b1489b4802fb6600add9146c68dab6f54289c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:20 +0000
Subject: [PATCH 37/66] fix: O3 combined the subgroups of its groups with
 inversions into ids which are not valid

---
 escnn/group/groups/o3group.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/escnn/group/groups/o3group.py b/escnn/group/groups/o3group.py
index 3aed731..d11d961 100644
--- a/escnn/group/groups/o3group.py
+++ b/escnn/group/groups/o3group.py
@@ -767,28 +767,31 @@ class O3(Group):
             
                 if so3_sg_id == (False, -1):
                     # C_2 x SO(2)
-                    sg_id = sg_id2[0], False, sg_id2[1]
+                    sg_id = sg_id2[0] == 2, False, sg_id2[1]
             
                 elif so3_sg_id == (True, -1):
                     # Cylinder,  C_2 x O(2)
-                    sg_id = sg_id2[0], sg_id2[1][0], sg_id2[1][1]
+                    if sg_id2[1][0] is not None:
+                        sg_id = sg_id2[0] == 2, sg_id2[1][0], sg_id2[1][1]
+                    else:
+                        sg_id = sg_id2[0] == 2, False, sg_id2[1][1]
             
                 elif so3_sg_id[0] is False and so3_sg_id[1] > 0:
                     N = so3_sg_id[1]
                 
                     if N == 1:
                         # Inversion subgroup C_2 of O(3)
-                        sg_id = sg_id2, False, 1
+                        sg_id = sg_id2 == 2, False, 1
                     else:
                         # C_2 x C_N
-                        sg_id = sg_id2[0], False, sg_id2[1]
+                        sg_id = sg_id2[0] == 2, False, sg_id2[1]
             
                 elif so3_sg_id[0] is True and so3_sg_id[1] > 1:
                     # Cylinder, C_2 x D_N
                     if sg_id2[1][0] is not None:
-                        sg_id = sg_id2[0], sg_id2[1][0] * 2 * np.pi / so3_sg_id[1], sg_id2[1][1]
+                        sg_id = sg_id2[0] == 2, sg_id2[1][0] * 2 * np.pi / so3_sg_id[1], sg_id2[1][1]
                     else:
-                        sg_id = sg_id2[0], False, sg_id2[1][1]
+                        sg_id = sg_id2[0] == 2, False, sg_id2[1][1]
             
                 elif so3_sg_id[0] is True and so3_sg_id[1] == 1:
                     # flip subgroup of the O(2) subgroup, C_2 x C_2
-- 
2.43.0


From 608d19ac80f55e0c7c45ec6d836c990a49003a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:20 +0000
Subject: [PATCH 38/66] fix: O3 could not combine the subgroups of the groups
 containing only rotations

---
 escnn/group/groups/o3group.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/escnn/group/groups/o3group.py b/escnn/group/groups/o3group.py
index d11d961..0e1ac46 100644
--- a/escnn/group/groups/o3group.py
+++ b/escnn/group/groups/o3group.py
@@ -807,8 +807,10 @@ class O3(Group):
         elif sg_id1[0] == False:
         
             # the rest of the id identifies a subgroup of the SO3 subgroup
-            so3_sg_id = sg1._combine_subgroups(sg_id1[1:], sg_id2)
-            sg_id, adjoint2 = (False,) + so3_sg_id[:-1], so3_sg_id[-1]
+            so3, so3_inclusion, _ = self.subgroup((False, 'so3'))
+            so3_sg_id = so3._combine_subgroups(sg_id1[1:], sg_id2)
+            sg_id = (False,) + so3_sg_id[:-1]
+            adjoint1 = so3_inclusion(so3_sg_id[-1]) @ adjoint1
     
         elif sg_id1[0] == 'cone':
             assert len(sg_id1) == 2
-- 
2.43.0


From 76e1b5f091cf9c37d94ffda8ac87999095b54515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:20 +0000
Subject: [PATCH 39/66] fix: O3 combined the subgroups of the conical groups
 into wrong or invalid ids

---
 escnn/group/groups/o3group.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/escnn/group/groups/o3group.py b/escnn/group/groups/o3group.py
index 0e1ac46..58ffa30 100644
--- a/escnn/group/groups/o3group.py
+++ b/escnn/group/groups/o3group.py
@@ -824,14 +824,14 @@ class O3(Group):
                 # D_N pyramid symmetry
 
                 if sg_id2[0] is not None:
-                    sg_id = 'cone', sg_id2[1]
-                    adjoint2 = sg1.element((0, sg_id2[0]))
+                    axis = sg_id2[0] if N == -1 else sg_id2[0] * 2 * np.pi / N
+                    sg_id = 'cone', float(axis), sg_id2[1]
                 else:
-                    sg_id = False, None, sg_id2[1]
+                    sg_id = False, False, sg_id2[1]
             
             elif N == 1:
                 # C_2 mirroring wrt a plane
-                sg_id = sg_id1 if sg_id2 else self.subgroup_trivial_id
+                sg_id = sg_id1 if sg_id2 == 2 else (False, False, 1)
             else:
                 raise ValueError(f'Subgroup "{sg_id}" not recognized!')
     
-- 
2.43.0


From e1eb6fdca9330285576bedff6715907df84d0bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:29 +0000
Subject: [PATCH 40/66] fix: comparing representations with the same name and
 different sizes crashed

---
 escnn/group/representation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/representation.py b/escnn/group/representation.py
index 8fddb97..dec7fd7 100644
--- a/escnn/group/representation.py
+++ b/escnn/group/representation.py
@@ -372,8 +372,8 @@ class Representation:
         
         return (self.name == other.name
                 and self.group == other.group
-                and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.irreps == other.irreps
+                and np.allclose(self.change_of_basis, other.change_of_basis)
                 and self.supported_nonlinearities == other.supported_nonlinearities)
     
     def __repr__(self) -> str:
-- 
2.43.0


From 35fb0175353196256043e539b35aa2552c55ca70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:29 +0000
Subject: [PATCH 41/66] fix: FieldType.restrict confused different
 representations with the same name

---
 escnn/nn/field_type.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/field_type.py b/escnn/nn/field_type.py
index 509ff62..c89df7a 100644
--- a/escnn/nn/field_type.py
+++ b/escnn/nn/field_type.py
@@ -389,10 +389,10 @@ class FieldType:
         # restrict each different base representation in the fiber representation
         restricted_reprs = {}
         for r in self._unique_representations:
-            restricted_reprs[r.name] = self.gspace.fibergroup.restrict_representation(id, r)
+            restricted_reprs[r] = self.gspace.fibergroup.restrict_representation(id, r)
     
         # for each field, retrieve the corresponding restricted representation
-        fields = [restricted_reprs[r.name] for r in self.representations]
+        fields = [restricted_reprs[r] for r in self.representations]
     
         # build the restricted fiber representation
         rrepr = subspace.type(*fields)
-- 
2.43.0


From 8481b2498cd4e7efb4f8d52d6b1187bb158cc0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:29 +0000
Subject: [PATCH 42/66] fix: GSpace0D was not hashable

---
 escnn/gspaces/r0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/gspaces/r0.py b/escnn/gspaces/r0.py
index 362accd..32c6027 100644
--- a/escnn/gspaces/r0.py
+++ b/escnn/gspaces/r0.py
@@ -87,7 +87,7 @@ class GSpace0D(GSpace):
             return False
 
     def __hash__(self):
-        return hash(self.fibergroup)
+        return hash(self.fibergroup.name)
 
 
 def no_base_space(G: Group) -> GSpace0D:
-- 
2.43.0


From c952da75c58cf7a525981e1b14a462008578cc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:29 +0000
Subject: [PATCH 43/66] fix: equal G-spaces and field types built from
 different subgroup ids had different hashes

---
 escnn/gspaces/r2.py    | 2 +-
 escnn/gspaces/r3.py    | 2 +-
 escnn/nn/field_type.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/escnn/gspaces/r2.py b/escnn/gspaces/r2.py
index 195b220..3c8d878 100644
--- a/escnn/gspaces/r2.py
+++ b/escnn/gspaces/r2.py
@@ -149,7 +149,7 @@ class GSpace2D(gspaces.GSpace):
             return False
     
     def __hash__(self):
-        return 1000 * hash(self.name) + hash(self._sg_id)
+        return hash(self._sg_id)
     
     
 def rot2dOnR2(N: int = -1, maximum_frequency: int = 6) -> GSpace2D:
diff --git a/escnn/gspaces/r3.py b/escnn/gspaces/r3.py
index 2ed6d2c..b79a1ce 100644
--- a/escnn/gspaces/r3.py
+++ b/escnn/gspaces/r3.py
@@ -165,7 +165,7 @@ class GSpace3D(gspaces.GSpace):
             return False
     
     def __hash__(self):
-        return 1000 * hash(self.name) + hash(self._sg_id)
+        return hash(self._sg_id)
 
 
 ########################################################################################################################
diff --git a/escnn/nn/field_type.py b/escnn/nn/field_type.py
index c89df7a..53877dc 100644
--- a/escnn/nn/field_type.py
+++ b/escnn/nn/field_type.py
@@ -96,7 +96,7 @@ class FieldType:
         self._field_start = None
         self._field_end = None
 
-        self._hash = hash(self.gspace.name + ': {' + ', '.join([r.name for r in self.representations]) + '}')
+        self._hash = hash((self.gspace, self.representations))
 
         self._uniform = True
         rho = self.representations[0]
-- 
2.43.0


From 3e3e68498ec4dcb15a018f7d1594e815a15b8eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:20 +0000
Subject: [PATCH 44/66] fix: GSpace returned the kernel basis of another pair
 of representations with the same names

---
 escnn/gspaces/gspace.py | 12 ++++++------
 escnn/gspaces/r0.py     |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/escnn/gspaces/gspace.py b/escnn/gspaces/gspace.py
index ea36234..f566de9 100644
--- a/escnn/gspaces/gspace.py
+++ b/escnn/gspaces/gspace.py
@@ -356,15 +356,15 @@ class GSpace(ABC):
         assert in_repr.group == self.fibergroup
         assert out_repr.group == self.fibergroup
     
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory_fiber_basis:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory_fiber_basis:
         
             basis = escnn.kernels.kernels_on_point(in_repr, out_repr)
         
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory_fiber_basis[(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory_fiber_basis[(in_repr, out_repr)] = basis
     
         # return the dictionary with all the basis built
-        return self._fields_intertwiners_basis_memory_fiber_basis[(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory_fiber_basis[(in_repr, out_repr)]
 
     def build_kernel_basis(self,
                            in_repr: escnn.group.Representation,
@@ -446,16 +446,16 @@ class GSpace(ABC):
         key["rings"] = tuple(rings)
         key = tuple(sorted(key.items()))
     
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
             # TODO - we could use a flag in the args to choose whether to store it or not
         
             basis = self._basis_generator(in_repr, out_repr, rings, sigma, **kwargs)
         
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
     
         # return the dictionary with all the basis built for this filter size
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
 
     @abstractmethod
     def _basis_generator(self,
diff --git a/escnn/gspaces/r0.py b/escnn/gspaces/r0.py
index 32c6027..236747c 100644
--- a/escnn/gspaces/r0.py
+++ b/escnn/gspaces/r0.py
@@ -64,15 +64,15 @@ class GSpace0D(GSpace):
         # build the key
         key = ()
 
-        if (in_repr.name, out_repr.name) not in self._fields_intertwiners_basis_memory[key]:
+        if (in_repr, out_repr) not in self._fields_intertwiners_basis_memory[key]:
     
             basis = self._basis_generator(in_repr, out_repr)
     
             # store the basis in the dictionary
-            self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)] = basis
+            self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)] = basis
 
         # return the dictionary with the basis built
-        return self._fields_intertwiners_basis_memory[key][(in_repr.name, out_repr.name)]
+        return self._fields_intertwiners_basis_memory[key][(in_repr, out_repr)]
 
     def _basis_generator(self,
                          in_repr: escnn.group.Representation,
-- 
2.43.0


From f64a1866fbefb4981dd3a3c8c3840d310159809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:40 +0000
Subject: [PATCH 45/66] fix: comparing radial profiles with different numbers
 of rings or different dtypes crashed

---
 escnn/kernels/polar_basis.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/escnn/kernels/polar_basis.py b/escnn/kernels/polar_basis.py
index be7d571..43c9783 100644
--- a/escnn/kernels/polar_basis.py
+++ b/escnn/kernels/polar_basis.py
@@ -109,14 +109,15 @@ class GaussianRadialProfile(KernelBasis):
     def __eq__(self, other):
         if isinstance(other, GaussianRadialProfile):
             return (
-                        torch.allclose(self.radii, other.radii.to(self.radii.device))
-                    and torch.allclose(self.sigma, other.sigma.to(self.sigma.device))
+                        self.dim == other.dim
+                    and torch.allclose(self.radii, other.radii.to(self.radii))
+                    and torch.allclose(self.sigma, other.sigma.to(self.sigma))
             )
         else:
             return False
     
     def __hash__(self):
-        return hash(self.radii.cpu().numpy().tobytes()) + hash(self.sigma.cpu().numpy().tobytes())
+        return hash(self.radii.cpu().float().numpy().tobytes()) + hash(self.sigma.cpu().float().numpy().tobytes())
 
 
 def circular_harmonics(points: torch.Tensor, L: int, phase: float = 0.):
-- 
2.43.0


From 4a48874595dc875e6b0b4f9259cc6b5b2955dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:15 +0000
Subject: [PATCH 46/66] fix: the aliased icosahedral kernel bases crashed when
 an adjoint is given

---
 escnn/kernels/r3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/kernels/r3.py b/escnn/kernels/r3.py
index fdcdab2..6a4b3d4 100644
--- a/escnn/kernels/r3.py
+++ b/escnn/kernels/r3.py
@@ -315,7 +315,7 @@ def _kernels_aliased_Ico_act_R3(in_repr: Representation, out_repr: Representatio
 
     basis = UnionBasis(basis_list)
 
-    if adjoint is not None and not np.allclose(adjoint, np.eye(2)):
+    if adjoint is not None and not np.allclose(adjoint, np.eye(3)):
         assert adjoint.shape == (3, 3)
         basis = AdjointBasis(basis, adjoint)
 
-- 
2.43.0


From aea827ff608af57a74506df7898d73a6034d3401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 47/66] fix: circular filter bases with different reflection
 axes compared equal and shared cached filters

---
 escnn/kernels/polar_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/escnn/kernels/polar_basis.py b/escnn/kernels/polar_basis.py
index 43c9783..ef273f6 100644
--- a/escnn/kernels/polar_basis.py
+++ b/escnn/kernels/polar_basis.py
@@ -1010,11 +1010,12 @@ class CircularShellsBasis(SteerableFiltersBasis):
             return (
                     self.radial == other.radial and
                     self.L == other.L and
+                    self.axis == other.axis and
                     self._filter == other._filter
             )
         else:
             return False
 
     def __hash__(self):
-        return self.L + hash(self.radial) + hash(self._filter)
+        return self.L + hash(self.radial) + hash(self._filter) + hash(self.axis)
 
-- 
2.43.0


From ea6b7520f457b496ee743fbbaaa77506e07741ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:02 +0000
Subject: [PATCH 48/66] fix: comparing filter bases built with a filter crashed
 and equal ones had different hashes

---
 escnn/kernels/polar_basis.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/escnn/kernels/polar_basis.py b/escnn/kernels/polar_basis.py
index ef273f6..a0fd4dd 100644
--- a/escnn/kernels/polar_basis.py
+++ b/escnn/kernels/polar_basis.py
@@ -574,13 +574,13 @@ class SphericalShellsBasis(SteerableFiltersBasis):
             return (
                     self.radial == other.radial and
                     self.L == other.L and
-                    self._filter == other._filter
+                    np.array_equal(self._idx_map, other._idx_map)
             )
         else:
             return False
     
     def __hash__(self):
-        return self.L + hash(self.radial) + hash(self._filter)
+        return self.L + hash(self.radial) + hash(None if self._idx_map is None else self._idx_map.tobytes())
 
 
 class CircularShellsBasis(SteerableFiltersBasis):
@@ -1011,11 +1011,11 @@ class CircularShellsBasis(SteerableFiltersBasis):
                     self.radial == other.radial and
                     self.L == other.L and
                     self.axis == other.axis and
-                    self._filter == other._filter
+                    np.array_equal(self._idx_map, other._idx_map)
             )
         else:
             return False
 
     def __hash__(self):
-        return self.L + hash(self.radial) + hash(self._filter) + hash(self.axis)
+        return self.L + hash(self.radial) + hash(None if self._idx_map is None else self._idx_map.tobytes()) + hash(self.axis)
 
-- 
2.43.0


From 5a6c042e703e2a64cc53cd9e9466ece1ca7d8af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:21 +0000
Subject: [PATCH 49/66] fix: CircularShellsBasis.__getitem__ failed for every
 index

---
 escnn/kernels/polar_basis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/escnn/kernels/polar_basis.py b/escnn/kernels/polar_basis.py
index a0fd4dd..04ee4ee 100644
--- a/escnn/kernels/polar_basis.py
+++ b/escnn/kernels/polar_basis.py
@@ -944,9 +944,11 @@ class CircularShellsBasis(SteerableFiltersBasis):
 
         j = (_idx // len(self.radial) + 1) //2
 
-        assert (2*j+1) * len(self.radial) <= _idx < (2*j + 3) * len(self.radial), (_idx, j, self.L, len(self.radial))
+        # position of the first element of frequency j
+        first = max(2*j - 1, 0) * len(self.radial)
+        assert first <= _idx < (2*j + 1) * len(self.radial), (_idx, j, self.L, len(self.radial))
 
-        j_idx = _idx - (2*j +1) * len(self.radial)
+        j_idx = _idx - first
 
         radial_idx, m = divmod(j_idx, 2 if j>0 else 1)
 
-- 
2.43.0


From ab8cb50b7178982d08132f99c93d8abd6a241cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:21 +0000
Subject: [PATCH 50/66] fix: steerable_attrs of the shell bases failed without
 a filter and lacked the radial attributes in 3D

---
 escnn/kernels/polar_basis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/escnn/kernels/polar_basis.py b/escnn/kernels/polar_basis.py
index 04ee4ee..07e063a 100644
--- a/escnn/kernels/polar_basis.py
+++ b/escnn/kernels/polar_basis.py
@@ -252,6 +252,7 @@ class SphericalShellsBasis(SteerableFiltersBasis):
             _filter = None
             self._idx_map = None
             self._steerable_idx_map = None
+            self._num_inv_spaces = (L + 1) * len(radial)
             js = [
                 (
                     (j % 2, j),  # the O(3) irrep ID
@@ -402,14 +403,12 @@ class SphericalShellsBasis(SteerableFiltersBasis):
 
         assert attr2["idx"] == radial_idx
 
-        attr = dict()
-        attr.update(attr2)
-
         j = (j%2, j) # the id of the O(3) irrep
         attr = {
             'irrep:'+k: v
             for k, v in self.group.irrep(*j).attributes.items()
         }
+        attr.update(attr2)
         attr["j"] = j
 
         attr["idx"] = idx
@@ -684,6 +683,7 @@ class CircularShellsBasis(SteerableFiltersBasis):
             _filter = None
             self._idx_map = None
             self._steerable_idx_map = None
+            self._num_inv_spaces = (L + 1) * len(radial)
             js = [
                 (
                     (int(j>0), j),  # the O(2) irrep ID
-- 
2.43.0


From 41a52e423bb27b63f26c6b615ae6cac586f41485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:21 +0000
Subject: [PATCH 51/66] fix: the attributes of filtered bases described the
 wrong rings

---
 escnn/kernels/polar_basis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/escnn/kernels/polar_basis.py b/escnn/kernels/polar_basis.py
index 07e063a..7d2b0c0 100644
--- a/escnn/kernels/polar_basis.py
+++ b/escnn/kernels/polar_basis.py
@@ -428,7 +428,8 @@ class SphericalShellsBasis(SteerableFiltersBasis):
             return
 
         idx = sum(self.multiplicity((_j%2, _j)) for _j in range(j))
-        i = 0
+        # position of the first element of frequency j in the filter
+        i = j**2 * len(self.radial)
 
         # since this methods return iterables of attributes built on the fly, load all attributes first and then
         # iterate on these lists
@@ -866,7 +867,8 @@ class CircularShellsBasis(SteerableFiltersBasis):
 
         idx = sum(self.multiplicity((int(_j>0),_j)) for _j in range(j))
         dim = 2 if j > 0 else 1
-        i = 0
+        # position of the first element of frequency j in the filter
+        i = max(2*j - 1, 0) * len(self.radial)
 
         attr1 = {
             'irrep:' + k: v
-- 
2.43.0


From 4ab9dc5bcddc1215b2719e472dd3a693a3bada1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:50 +0000
Subject: [PATCH 52/66] fix: equal adjoint bases had different hashes

---
 escnn/kernels/basis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/kernels/basis.py b/escnn/kernels/basis.py
index 5ff9145..4403079 100644
--- a/escnn/kernels/basis.py
+++ b/escnn/kernels/basis.py
@@ -161,7 +161,7 @@ class AdjointBasis(KernelBasis):
             return False
     
     def __hash__(self):
-        return hash(self.adj) + 1000 * hash(self.basis)
+        return hash(tuple(self.adj.shape)) + 1000 * hash(self.basis)
 
 
 class UnionBasis(KernelBasis):
-- 
2.43.0


From 88c44772b02be77779a4947de2c702384e472394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:50 +0000
Subject: [PATCH 53/66] fix: IrrepBasis could not be built without a list of
 harmonics

---
 escnn/kernels/steerable_basis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/escnn/kernels/steerable_basis.py b/escnn/kernels/steerable_basis.py
index 5091f6f..a65f06a 100644
--- a/escnn/kernels/steerable_basis.py
+++ b/escnn/kernels/steerable_basis.py
@@ -62,7 +62,8 @@ class IrrepBasis(KernelBasis):
         self.basis: SteerableFiltersBasis = basis
 
         self.js = []
-        harmonics = set(harmonics)
+        if harmonics is not None:
+            harmonics = set(harmonics)
         for j, _ in basis.js:
             if j not in self.js and (harmonics is None or j in harmonics):
                 self.js.append(j)
-- 
2.43.0


From 8150946bd3696c945d54fcf4700115c121a9cecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:56:50 +0000
Subject: [PATCH 54/66] fix: equal basis expansions had different hashes

---
 escnn/nn/modules/basismanager/basisexpansion_singleblock.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/nn/modules/basismanager/basisexpansion_singleblock.py b/escnn/nn/modules/basismanager/basisexpansion_singleblock.py
index 679eed5..64d7e1d 100644
--- a/escnn/nn/modules/basismanager/basisexpansion_singleblock.py
+++ b/escnn/nn/modules/basismanager/basisexpansion_singleblock.py
@@ -114,7 +114,7 @@ class SingleBlockBasisExpansion(torch.nn.Module, BasisManager):
             return False
     
     def __hash__(self):
-        return 10000 * hash(self.basis) + 100 * hash(self.sampled_basis) + hash(self._mask)
+        return 10000 * hash(self.basis) + hash(self._mask.numpy().tobytes())
 
 # dictionary storing references to already built basis tensors.
 # when a new filter tensor is built, it is also stored here
-- 
2.43.0


From c9346b61d49b71f8d4dad48b3f1160d4e44b5c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:04 +0000
Subject: [PATCH 55/66] fix: layers with a single pair of representations and
 an empty basis crashed

---
 escnn/nn/modules/basismanager/basisexpansion_blocks.py | 2 +-
 escnn/nn/modules/basismanager/basissampler_blocks.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/basismanager/basisexpansion_blocks.py b/escnn/nn/modules/basismanager/basisexpansion_blocks.py
index 4327815..1486efb 100644
--- a/escnn/nn/modules/basismanager/basisexpansion_blocks.py
+++ b/escnn/nn/modules/basismanager/basisexpansion_blocks.py
@@ -321,7 +321,7 @@ class BlocksBasisExpansion(torch.nn.Module, BasisManager):
         assert weights.shape[0] == self.dimension()
         assert len(weights.shape) == 1
     
-        if self._n_pairs == 1:
+        if self._n_pairs == 1 and len(self._representations_pairs) == 1:
             # if there is only one block (i.e. one type of input field and one type of output field),
             #  we can return the expanded block immediately, instead of copying it inside a preallocated empty tensor
             io_pair = self._representations_pairs[0]
diff --git a/escnn/nn/modules/basismanager/basissampler_blocks.py b/escnn/nn/modules/basismanager/basissampler_blocks.py
index 44ecdc6..42b0a90 100644
--- a/escnn/nn/modules/basismanager/basissampler_blocks.py
+++ b/escnn/nn/modules/basismanager/basissampler_blocks.py
@@ -89,7 +89,7 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
         self._n_pairs = len(set(in_reprs)) * len(set(out_reprs))
         if _uniform:
             assert self._n_pairs <= 1
-        self._uniform = _uniform and self._n_pairs == 1
+        self._uniform = _uniform and len(self._representations_pairs) == 1
 
         # retrieve for each representation in both input and output fields:
         # - the number of its occurrences,
-- 
2.43.0


From 30335f3779fdca66440cc955499c2fbfde10a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:01 +0000
Subject: [PATCH 56/66] fix: converting a point convolution to another dtype
 broke the layers sharing its cached bases

---
 escnn/kernels/harmonic_polynomial_r3.py                   | 4 ++--
 escnn/kernels/polar_basis.py                              | 7 ++++---
 escnn/kernels/sparse_basis.py                             | 6 +++---
 escnn/kernels/wignereckart_solver.py                      | 4 ++--
 escnn/nn/modules/basismanager/basissampler_singleblock.py | 2 +-
 5 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/escnn/kernels/harmonic_polynomial_r3.py b/escnn/kernels/harmonic_polynomial_r3.py
index c62623f..26b53e2 100644
--- a/escnn/kernels/harmonic_polynomial_r3.py
+++ b/escnn/kernels/harmonic_polynomial_r3.py
@@ -65,7 +65,7 @@ class HarmonicPolynomialR3Generator(torch.nn.Module):
         if self.L == 0:
             return features_0
 
-        feature_1 = torch.einsum('...i,ji->...j', points, getattr(self, 'cob_1'))
+        feature_1 = torch.einsum('...i,ji->...j', points, getattr(self, 'cob_1').to(points.dtype))
 
         features = [
             features_0,
@@ -73,7 +73,7 @@ class HarmonicPolynomialR3Generator(torch.nn.Module):
         ]
 
         for l in range(2, self.L+1):
-            cob = getattr(self, f'cob_{l}')
+            cob = getattr(self, f'cob_{l}').to(points.dtype)
             f = torch.einsum('...i,...j->...ij', features[-1], feature_1).reshape(*shape, -1)
             assert f.shape[-1] == 3*(2*l-1), (f.shape, l)
             f = torch.einsum('...i,ji->...j', f, cob)
diff --git a/escnn/kernels/polar_basis.py b/escnn/kernels/polar_basis.py
index 7d2b0c0..d53e4d1 100644
--- a/escnn/kernels/polar_basis.py
+++ b/escnn/kernels/polar_basis.py
@@ -93,12 +93,13 @@ class GaussianRadialProfile(KernelBasis):
 
         assert not torch.isnan(radii).any()
 
-        d = (self.radii - radii) ** 2
+        sigma = self.sigma.to(radii.dtype)
+        d = (self.radii.to(radii.dtype) - radii) ** 2
 
         if radii.requires_grad:
-            out[:] = torch.exp(-0.5 * d / self.sigma ** 2)
+            out[:] = torch.exp(-0.5 * d / sigma ** 2)
         else:
-            out = torch.exp(-0.5 * d / self.sigma ** 2, out=out)
+            out = torch.exp(-0.5 * d / sigma ** 2, out=out)
 
         return out
     
diff --git a/escnn/kernels/sparse_basis.py b/escnn/kernels/sparse_basis.py
index 642ccb9..9977fa0 100644
--- a/escnn/kernels/sparse_basis.py
+++ b/escnn/kernels/sparse_basis.py
@@ -155,14 +155,14 @@ class SparseOrbitBasis(SteerableFiltersBasis):
         assert points.shape[1] == self.dimensionality
     
         if out is None:
-            out = torch.empty((S, self.dim, 1, 1), dtype=self.points.dtype, device=self.points.device)
+            out = torch.empty((S, self.dim, 1, 1), dtype=points.dtype, device=points.device)
     
         assert out.shape == (S, self.dim, 1, 1)
 
         assert self.points.device == points.device, (self.points.device, points.device)
         assert out.device == points.device, (out.device, points.device)
 
-        weights = self.points.unsqueeze(1) - points.unsqueeze(0)
+        weights = self.points.to(points.dtype).unsqueeze(1) - points.unsqueeze(0)
         assert weights.shape == (self.points.shape[0], S, self.dimensionality)
 
         weights = (weights**2).sum(axis=2) / self.sigma**2
@@ -172,7 +172,7 @@ class SparseOrbitBasis(SteerableFiltersBasis):
         for j, m in self.js:
             out[:, B:B + self.dim_harmonic(j), ...].view(
                 S, m, -1
-            )[:] = torch.einsum('irm,io->orm', self._get_harmonics(j), weights)
+            )[:] = torch.einsum('irm,io->orm', self._get_harmonics(j).to(points.dtype), weights)
             
             B += self.dim_harmonic(j)
 
diff --git a/escnn/kernels/wignereckart_solver.py b/escnn/kernels/wignereckart_solver.py
index 2f9e877..9df0148 100644
--- a/escnn/kernels/wignereckart_solver.py
+++ b/escnn/kernels/wignereckart_solver.py
@@ -110,7 +110,7 @@ class WignerEckartBasis(IrrepBasis):
         for b, j in enumerate(self.js):
             if j not in out:
                 continue
-            coeff = self.coeff(b)
+            coeff = self.coeff(b).to(points[j].dtype)
             
             jJl = coeff.shape[1]
         
@@ -386,7 +386,7 @@ class RestrictedWignerEckartBasis(IrrepBasis):
         for b, j in enumerate(self.js):
             if j not in out:
                 continue
-            coeff = self.coeff(b)
+            coeff = self.coeff(b).to(points[j].dtype)
         
             Ys = points[j]
             out[j].view((
diff --git a/escnn/nn/modules/basismanager/basissampler_singleblock.py b/escnn/nn/modules/basismanager/basissampler_singleblock.py
index f370dd1..7ffa8f7 100644
--- a/escnn/nn/modules/basismanager/basissampler_singleblock.py
+++ b/escnn/nn/modules/basismanager/basissampler_singleblock.py
@@ -71,7 +71,7 @@ class SingleBlockBasisSampler(torch.nn.Module, BasisManager):
             basis = basis[:, :, :, self._mask]
 
         # return basis.to(device=device, dtype=points.dtype) * self.sizes
-        return basis * self.sizes
+        return basis * self.sizes.to(basis.dtype)
 
     def get_element_info(self, id: int) -> Dict:
         idx = 0
-- 
2.43.0


From cbf55d5204981e600185aa7987b994c5b26deb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:01 +0000
Subject: [PATCH 57/66] fix: grouped point convolutions crashed with several
 input representations

---
 escnn/nn/modules/basismanager/basissampler_blocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/nn/modules/basismanager/basissampler_blocks.py b/escnn/nn/modules/basismanager/basissampler_blocks.py
index 42b0a90..fb7dccf 100644
--- a/escnn/nn/modules/basismanager/basissampler_blocks.py
+++ b/escnn/nn/modules/basismanager/basissampler_blocks.py
@@ -464,7 +464,7 @@ class BlocksBasisSampler(torch.nn.Module, BasisManager):
                 block_out = self._compute_out_block(weights, _input, points, io_pair)
 
                 if self._contiguous[io_pair]:
-                    _out[:, out_indices[0]:out_indices[1]] += block_out.reshape(S, groups*out_indices[2])
+                    _out[:, out_indices[0]:out_indices[1]] += block_out.reshape(S, out_indices[2])
                 else:
                     _out[:, out_indices] += block_out.reshape(S, -1)
 
-- 
2.43.0


From c013ecb6718aa24bd4279790851cf63132daf4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:32 +0000
Subject: [PATCH 58/66] fix: O3 Clebsch-Gordan coefficients crashed for irreps
 of the wrong parity

---
 escnn/group/groups/o3group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/o3group.py b/escnn/group/groups/o3group.py
index 58ffa30..9fde6e3 100644
--- a/escnn/group/groups/o3group.py
+++ b/escnn/group/groups/o3group.py
@@ -1207,7 +1207,7 @@ class O3(Group):
         if (m[0] + n[0])%2 == j[0]:
             return _clebsh_gordan_tensor_so3(m[1], n[1], j[1])
         else:
-            return np.zeros(self.irrep(*m).size, self.irrep(*n).size, 0, self.irrep(*j).size)
+            return np.zeros((self.irrep(*m).size, self.irrep(*n).size, 0, self.irrep(*j).size))
 
     _cached_group_instance = None
 
-- 
2.43.0


From 7abe569f69c3d08ba998f6f9422127e35a45ed16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:32 +0000
Subject: [PATCH 59/66] fix: SO3 Clebsch-Gordan coefficients reported
 multiplicity 1 for irreps not in the tensor product

---
 escnn/group/groups/so3group.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/escnn/group/groups/so3group.py b/escnn/group/groups/so3group.py
index 032710c..ced0061 100644
--- a/escnn/group/groups/so3group.py
+++ b/escnn/group/groups/so3group.py
@@ -901,6 +901,9 @@ class SO3(Group):
 def _clebsh_gordan_tensor_so3(m: int, n: int, j: int):
     if py3nj is None:
         return escnn.group._clebsh_gordan._clebsh_gordan_tensor((m,), (n,), (j,), SO3.__name__)
+    elif j < abs(m - n) or j > m + n:
+        # the tensor product does not contain this irrep
+        return np.zeros((2 * m + 1, 2 * n + 1, 0, 2 * j + 1))
     else:
         m1 = np.arange(-m, m + 1).reshape(-1, 1, 1)
         m2 = np.arange(-n, n + 1).reshape(1, -1, 1)
-- 
2.43.0


From 1acfafae4603b7c6fd606e1ead36e10873cc2705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:47:46 +0000
Subject: [PATCH 60/66] fix: SO3.sphere_grid returned the representatives of
 the antipodal points

---
 escnn/group/groups/so3group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/groups/so3group.py b/escnn/group/groups/so3group.py
index ced0061..00af322 100644
--- a/escnn/group/groups/so3group.py
+++ b/escnn/group/groups/so3group.py
@@ -259,7 +259,7 @@ class SO3(Group):
         elements[:, :, 0] = np.cross(elements[:, :, 2], elements[:, :, 1])
         det = np.linalg.det(elements)
         assert np.allclose(np.abs(det), 1.)
-        elements[:, :, 2] *= det.reshape(-1, 1)
+        elements[:, :, 0] *= det.reshape(-1, 1)
 
         return [
             self.element(g, param='MAT') for g in elements
-- 
2.43.0


From 760b7c41e72d052eaa403a4ef180a3c6f78ccf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:45 +0000
Subject: [PATCH 61/66] fix: O3.grid and O3.grid_so3 crashed when adj was a
 group element

---
 escnn/group/groups/o3group.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/escnn/group/groups/o3group.py b/escnn/group/groups/o3group.py
index 9fde6e3..ad7fe38 100644
--- a/escnn/group/groups/o3group.py
+++ b/escnn/group/groups/o3group.py
@@ -255,7 +255,7 @@ class O3(Group):
     def sample(self, param: str = PARAMETRIZATION) -> GroupElement:
         return self.element((np.random.randint(0, 2), _grid('rand', N=1, parametrization=param)[0]))
 
-    def grid(self, type: str, *args, adj=IDENTITY, parametrization: str = PARAMETRIZATION, **kwargs) -> List[GroupElement]:
+    def grid(self, type: str, *args, adj: GroupElement = None, parametrization: str = PARAMETRIZATION, **kwargs) -> List[GroupElement]:
         r"""
         Method which builds different collections of elements of :math:`\O3`.
 
@@ -295,6 +295,7 @@ class O3(Group):
                 for g in _random_samples(*args, **kwargs, parametrization=PARAMETRIZATION)
             ]
         else:
+            adj = IDENTITY if adj is None else adj.to(PARAMETRIZATION)[1]
             so3_grid = _grid(type, *args, adj=adj, parametrization=parametrization, **kwargs)
             return [
                     self.element((0, g), param=parametrization) for g in so3_grid
@@ -302,7 +303,7 @@ class O3(Group):
                     self.element((1, g), param=parametrization) for g in so3_grid
             ]
 
-    def grid_so3(self, type: str, *args, adj=IDENTITY, parametrization: str = PARAMETRIZATION, **kwargs) -> List[GroupElement]:
+    def grid_so3(self, type: str, *args, adj: GroupElement = None, parametrization: str = PARAMETRIZATION, **kwargs) -> List[GroupElement]:
         r"""
         Method which builds different collections of elements of the :math:`\SO3` subgroup of :math:`\O3`.
         This method is equivalent to :meth:`escnn.group.SO3.grid`, but the :math:`\SO3` elements will be embedded in
@@ -319,6 +320,7 @@ class O3(Group):
             a list of group elements
 
         """
+        adj = IDENTITY if adj is None else adj.to(PARAMETRIZATION)[1]
         so3_grid = _grid(type, *args, adj=adj, parametrization=parametrization, **kwargs)
         return [self.element((0, g), param=parametrization) for g in so3_grid]
 
-- 
2.43.0


From 47689350769b3895f15280481027531fc8cecd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:44 +0000
Subject: [PATCH 62/66] fix: directsum with a change of basis declared
 non-linearities which do not commute with it

---
 escnn/group/representation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/escnn/group/representation.py b/escnn/group/representation.py
index dec7fd7..7290a72 100644
--- a/escnn/group/representation.py
+++ b/escnn/group/representation.py
@@ -573,6 +573,7 @@ def directsum(reprs: List[escnn.group.Representation],
         cob_inv[p:p + r.size, p:p + r.size] = r.change_of_basis_inv
         p += r.size
 
+    basis = change_of_basis
     if change_of_basis is not None:
         change_of_basis = change_of_basis @ cob
         change_of_basis_inv = sp.linalg.inv(change_of_basis)
@@ -581,7 +582,15 @@ def directsum(reprs: List[escnn.group.Representation],
         change_of_basis_inv = cob_inv
 
     supported_nonlinearities = set.intersection(*[r.supported_nonlinearities for r in reprs])
-    
+    if basis is not None:
+        # keep only the non-linearities which still commute with the representation in the new basis
+        preserved = {'gated', 'gate'}
+        if np.allclose(basis @ basis.T, np.eye(size)):
+            preserved.add('norm')
+            if np.all(np.isclose(basis, 0.) | np.isclose(basis, 1.)):
+                preserved.update(['pointwise', 'concatenated'])
+        supported_nonlinearities &= preserved
+
     return Representation(group, name, irreps, change_of_basis, supported_nonlinearities, change_of_basis_inv=change_of_basis_inv)
 
 
-- 
2.43.0


From d71eaf395405efb121a00a0b2d8a466f6af6e848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:57 +0000
Subject: [PATCH 63/66] fix: tensor products of non-orthogonal representations
 declared the norm non-linearity

---
 escnn/group/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/escnn/group/group.py b/escnn/group/group.py
index ff18e07..fdc01bd 100644
--- a/escnn/group/group.py
+++ b/escnn/group/group.py
@@ -940,7 +940,9 @@ def _tensor_nonlinearities(repr1: escnn.group.Representation, repr2: escnn.group
         supported_nonlinearities.append('pointwise')
         
     supported_nonlinearities.append('gated')
-    supported_nonlinearities.append('norm')
+
+    if 'norm' in repr1.supported_nonlinearities and 'norm' in repr2.supported_nonlinearities:
+        supported_nonlinearities.append('norm')
 
     if 'gate' in repr1.supported_nonlinearities and 'gate' in repr2.supported_nonlinearities:
         supported_nonlinearities.append('gate')
-- 
2.43.0


From 01ed18c7abc3cdf9ae1ebe2b2239ee68e04f2b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:26 +0000
Subject: [PATCH 64/66] fix: the maps from octa and ico to C_N missed elements
 stored with the opposite quaternion

---
 escnn/group/groups/ico.py  | 4 ++--
 escnn/group/groups/octa.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/escnn/group/groups/ico.py b/escnn/group/groups/ico.py
index f13ca76..10a40f1 100644
--- a/escnn/group/groups/ico.py
+++ b/escnn/group/groups/ico.py
@@ -621,9 +621,9 @@ def ico_to_cn(adj: GroupElement, cn: escnn.group.CyclicGroup, axis: np.ndarray):
 
         if np.allclose(n, 0.):
             return cn.identity
-        elif np.allclose(v / n, axis):
+        elif np.allclose(v / n, axis) or np.allclose(v / n, -axis):
             # if the rotation is along the axis
-            s, c = n, e[-1]
+            s, c = v @ axis, e[-1]
             theta = 2 * np.arctan2(s, c)
             try:
                 return cn.element(theta, 'radians')
diff --git a/escnn/group/groups/octa.py b/escnn/group/groups/octa.py
index cf3f00f..9747916 100644
--- a/escnn/group/groups/octa.py
+++ b/escnn/group/groups/octa.py
@@ -581,9 +581,9 @@ def octa_to_cn(adj: GroupElement, cn: escnn.group.CyclicGroup, axis: np.ndarray)
 
         if np.allclose(n, 0.):
             return cn.identity
-        elif np.allclose(v / n, axis):
+        elif np.allclose(v / n, axis) or np.allclose(v / n, -axis):
             # if the rotation is along the axis
-            s, c = n, e[-1]
+            s, c = v @ axis, e[-1]
             theta = 2 * np.arctan2(s, c)
             try:
                 return cn.element(theta, 'radians')
-- 
2.43.0


From 27fb6f6a7f9b2e32f2d88bf99123eac0d3cf4067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:26 +0000
Subject: [PATCH 65/66] fix: Group.get_irrep_id returned the irrep instead of
 its id when given a name

---
 escnn/group/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/escnn/group/group.py b/escnn/group/group.py
index fdc01bd..0f3354d 100644
--- a/escnn/group/group.py
+++ b/escnn/group/group.py
@@ -857,7 +857,7 @@ class Group(ABC):
         elif isinstance(psi, str):
             psi = self.representations[psi]
             assert isinstance(psi, escnn.group.IrreducibleRepresentation)
-            return psi
+            return psi.id
         elif isinstance(psi, tuple):
             return self.irrep(*psi).id
         else:
-- 
2.43.0


From 7bdae7bd6cce805dea77792ecc3eb59603a69992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:51 +0000
Subject: [PATCH 66/66] fix: evaluate_output_shape of convolutions raised a
 TypeError when padding is a tuple

---
 escnn/nn/modules/conv/rd_convolution.py            | 4 +++-
 escnn/nn/modules/conv/rd_transposed_convolution.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/escnn/nn/modules/conv/rd_convolution.py b/escnn/nn/modules/conv/rd_convolution.py
index eea1b4c..3c3eb32 100644
--- a/escnn/nn/modules/conv/rd_convolution.py
+++ b/escnn/nn/modules/conv/rd_convolution.py
@@ -342,9 +342,11 @@ class _RdConv(EquivariantModule, ABC):
         b, c = input_shape[:2]
         w = input_shape[2:]
         
+        padding = self.padding if isinstance(self.padding, tuple) else (self.padding,) * self.d
+
         wo = [None]*self.d
         for i in range(self.d):
-            wo[i] = math.floor((w[i] + 2 * self.padding - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
+            wo[i] = math.floor((w[i] + 2 * padding[i] - self.dilation * (self.kernel_size - 1) - 1) / self.stride + 1)
 
         return (b, self.out_type.size) + tuple(wo)
 
diff --git a/escnn/nn/modules/conv/rd_transposed_convolution.py b/escnn/nn/modules/conv/rd_transposed_convolution.py
index f862340..1ae27e8 100644
--- a/escnn/nn/modules/conv/rd_transposed_convolution.py
+++ b/escnn/nn/modules/conv/rd_transposed_convolution.py
@@ -324,9 +324,12 @@ class _RdConvTransposed(EquivariantModule, ABC):
         b, c = input_shape[:2]
         w = input_shape[2:]
         
+        padding = self.padding if isinstance(self.padding, tuple) else (self.padding,) * self.d
+        output_padding = self.output_padding if isinstance(self.output_padding, tuple) else (self.output_padding,) * self.d
+
         wo = [None]*self.d
         for i in range(self.d):
-            wo[i] = (w[i]-1) * self.stride - 2 * self.padding + self.dilation * (self.kernel_size - 1) + self.output_padding + 1
+            wo[i] = (w[i]-1) * self.stride - 2 * padding[i] + self.dilation * (self.kernel_size - 1) + output_padding[i] + 1
 
         return (b, self.out_type.size) + tuple(wo)
 
-- 
2.43.0

