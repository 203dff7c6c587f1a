From f2d21b37ebf17685e86f4be70436707168fa69f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 01/77] fix: sign of zero is zero on CPU, as on CUDA

---
 src/Operation/OpElemWiseCpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index b2b1348..ac6bf3f 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -30,7 +30,7 @@ struct OpCpuNeg {
 struct OpCpuSign {
   template <typename T>
   static T apply(const T& a) {
-    return a > 0 ? 1 : -1;
+    return a > 0 ? 1 : (a < 0 ? -1 : 0);
   }
 };
 
-- 
2.43.0


From 9c3a65892f74cf8419bf7dfe6e6aaffd241ba050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:57 +0000
Subject: [PATCH 02/77] fix: unary write-into operations copy a shared result
 buffer before writing

---
 src/Operation/OpElemWiseCpu.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index ac6bf3f..a8bb948 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -307,6 +307,7 @@ Tensor unaryOpCpuImpl(const Tensor& self) {
 template <typename T, typename OP>
 void unaryOpOutCpuImpl(Tensor& out, const Tensor& self) {
   ASSERT(self.shape() == out.shape());
+  out.copyOnWrite();
   T* outPtr = out.dataPtr<T>();
   const T* selfPtr = self.dataPtr<T>();
   for (int64_t i = 0; i < self.numel(); i++) {
-- 
2.43.0


From 160cd9eecebe077781a1b41d1636478dbc139905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 03/77] fix: broadcasting a zero-size dimension keeps it zero

---
 src/Tensor/TensorIterator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Tensor/TensorIterator.cpp b/src/Tensor/TensorIterator.cpp
index d7d51e7..792f8b3 100644
--- a/src/Tensor/TensorIterator.cpp
+++ b/src/Tensor/TensorIterator.cpp
@@ -81,7 +81,9 @@ bool TensorIteratorBase::broadcastShape(SizeVector& ret, const SmallVector<IntAr
         LOGE("Incompatible shapes for broadcasting");
         return false;
       }
-      dim = std::max(dim, d);
+      if (d != 1) {
+        dim = d;
+      }
     }
     ret[i] = dim;
   }
-- 
2.43.0


From a0b67727230aa387b496880ff7ac3d06572ca9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 04/77] fix: minimum and maximum of all-infinite elements are
 infinite

---
 src/Operation/OpReduceCpu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 77be05e..2980556 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -24,7 +24,7 @@ struct OpCpuReduceMin {
 
   template <typename T>
   static T defaultVal() {
-    return std::numeric_limits<T>::max();
+    return std::numeric_limits<T>::infinity();
   }
 };
 
@@ -41,7 +41,7 @@ struct OpCpuReduceMax {
 
   template <typename T>
   static T defaultVal() {
-    return -std::numeric_limits<T>::max();
+    return -std::numeric_limits<T>::infinity();
   }
 };
 
-- 
2.43.0


From 567b9b93450e26addcde808ca48b6627bd1ad0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:46 +0000
Subject: [PATCH 05/77] fix: reducing a scalar returns a separate tensor
 instead of the input itself

---
 src/Operation/OpReduceCpu.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 2980556..57f3e07 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -180,10 +180,18 @@ Tensor ReducerCpu::reduceMultiDim(const Tensor &t, const IntArrayView dims, bool
   return ret;
 }
 
+// A separate copy of a scalar, as the reduction of a scalar must not share later writes with its input.
+template <typename T>
+Tensor reduceScalarCpuImpl(const Tensor &t) {
+  auto ret = Tensor::empty({}, t.options().noGrad());
+  *ret.dataPtr<T>() = *t.dataPtr<T>();
+  return ret;
+}
+
 template <typename T, typename OP>
 Tensor reduceOpAllCpuImpl(const Tensor &t) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalarCpuImpl<T>(t);
   }
   auto ret = Tensor::empty({}, t.options().noGrad());
   const T *tPtr = t.dataPtr<T>();
@@ -207,7 +215,7 @@ Tensor reduceOpArgMinMaxCpuImpl(const Tensor &t) {
 template <typename T, typename OP>
 TensorPair reduceOpMinMaxDimCpuImpl(const Tensor &t, int64_t dim, bool keepDims = false) {
   if (t.isScalar()) {
-    return {t, Tensor::scalar(0, t.options().noGrad().indices())};
+    return {reduceScalarCpuImpl<T>(t), Tensor::scalar(0, t.options().noGrad().indices())};
   }
   return ReducerCpu::reduceIdxDim<T, OP>(t, dim, keepDims);
 }
@@ -215,7 +223,7 @@ TensorPair reduceOpMinMaxDimCpuImpl(const Tensor &t, int64_t dim, bool keepDims
 template <typename T>
 Tensor reduceOpSumDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalarCpuImpl<T>(t);
   }
   ASSERT(!dims.empty());
   return ReducerCpu::reduceMultiDim<T>(t, dims, keepDims, [](T *retPtr, const T *tPtr, int64_t retIdx, int64_t srcIdx) {
@@ -236,7 +244,7 @@ Tensor reduceOpSumCpuImpl(const Tensor &t) {
 template <typename T>
 Tensor reduceOpMeanCpuImpl(const Tensor &t) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalarCpuImpl<T>(t);
   }
   auto ret = reduceOpAllCpuImpl<T, OpCpuReduceSum>(t);
   const auto r = 1.f / static_cast<float>(t.numel());
@@ -247,7 +255,7 @@ Tensor reduceOpMeanCpuImpl(const Tensor &t) {
 template <typename T>
 Tensor reduceOpMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool keepDims = false) {
   if (t.isScalar()) {
-    return t;
+    return reduceScalarCpuImpl<T>(t);
   }
   ASSERT(!dims.empty());
   auto ret = reduceOpSumDimsCpuImpl<T>(t, dims, keepDims);
@@ -266,7 +274,7 @@ Tensor reduceOpMeanDimCpuImpl(const Tensor &t, const int64_t dim, bool keepDims
 template <typename T>
 TensorPair reduceOpVarMeanCpuImpl(const Tensor &t, bool unbiased = true) {
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), reduceScalarCpuImpl<T>(t)};
   }
   const auto meanVal = op::mean(t);
 
@@ -292,7 +300,7 @@ template <typename T>
 TensorPair reduceOpVarMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims, bool unbiased = true,
                                       bool keepDims = false) {
   if (t.isScalar()) {
-    return {Tensor::scalar(0, t.options().noGrad()), t};
+    return {Tensor::scalar(0, t.options().noGrad()), reduceScalarCpuImpl<T>(t)};
   }
   ASSERT(!dims.empty());
   auto meanVal = op::meanOnDims(t, dims, true);
-- 
2.43.0


From 2981094e41c8a40646fa715acd3f84fca3eeee00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 06/77] fix: the mean returned with the variance drops the
 reduced dimensions when asked to

---
 src/Operation/OpReduceCpu.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpReduceCpu.h b/src/Operation/OpReduceCpu.h
index 57f3e07..a72d7f2 100644
--- a/src/Operation/OpReduceCpu.h
+++ b/src/Operation/OpReduceCpu.h
@@ -319,7 +319,7 @@ TensorPair reduceOpVarMeanDimsCpuImpl(const Tensor &t, const IntArrayView dims,
     }
     op::mulInplace(varVal, Tensor::scalar(r, varVal.options().noGrad()));
   }
-  return {varVal, meanVal};
+  return {varVal, keepDims ? meanVal : op::meanOnDims(t, dims, false)};
 }
 
 template <typename T>
-- 
2.43.0


From 55ae2cb23f5167032ae393fb701e9b7e72fbb578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 07/77] fix: batched matmul aligns the batch dimensions of
 operands of different rank from the end

---
 src/Operation/OpLinalg.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index 6d956dc..a2cdfcf 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -150,6 +150,10 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
     SizeVector aStrides = makePaddedStrides(a.strides(), retTensor.dim());
     SizeVector bStrides = makePaddedStrides(b.strides(), retTensor.dim());
 
+    // dimension i of the result is dimension i - pad of the operand
+    int64_t aPad = retDimCnt - a.dim();
+    int64_t bPad = retDimCnt - b.dim();
+
     // pointer arrays based batched gemm
     auto gemmBatched = getGemmBatchedFunc<T>(a.device().type);
     if (gemmBatched != nullptr) {
@@ -165,10 +169,10 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
         for (auto i = retDimCnt - 3; i >= 0; i--) {
           int64_t index = tmp % retShape[i];
           tmp /= retShape[i];
-          if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
+          if (i >= aPad && a.shape()[i - aPad] != 1) {
             aOffset += index * aStrides[i];
           }
-          if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
+          if (i >= bPad && b.shape()[i - bPad] != 1) {
             bOffset += index * bStrides[i];
           }
         }
@@ -208,10 +212,10 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
       for (auto i = retDimCnt - 3; i >= 0; i--) {
         int64_t index = tmp % retShape[i];
         tmp /= retShape[i];
-        if (static_cast<int64_t>(a.shape().size()) > i && a.shape()[i] != 1) {
+        if (i >= aPad && a.shape()[i - aPad] != 1) {
           aOffset += index * aStrides[i];
         }
-        if (static_cast<int64_t>(b.shape().size()) > i && b.shape()[i] != 1) {
+        if (i >= bPad && b.shape()[i - bPad] != 1) {
           bOffset += index * bStrides[i];
         }
       }
-- 
2.43.0


From e878c301cca3e095e66990b187a92ed539b9980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 08/77] fix: matmul of a vector with a batch of matrices drops
 the vector's added dimension

---
 src/Operation/OpLinalg.cpp | 45 ++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 24 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index a2cdfcf..f9b25e9 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -95,6 +95,24 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
   retShape[retDimCnt - 1] = n;
   Tensor retTensor = Tensor::empty(retShape, a.options().noGrad());
 
+  // drops the dimensions that were added to vector operands
+  auto removeVectorDims = [&retTensor, &retShape, prependA, appendB]() {
+    if (!prependA && !appendB) {
+      return;
+    }
+    SizeVector shape;
+    for (int64_t i = 0; i < static_cast<int64_t>(retShape.size()) - 2; i++) {
+      shape.pushBack(retShape[i]);
+    }
+    if (!prependA) {
+      shape.pushBack(retShape[retShape.size() - 2]);
+    }
+    if (!appendB) {
+      shape.pushBack(retShape.back());
+    }
+    retTensor.reshape_(shape);
+  };
+
   const T *selfPtr = a.dataPtr<T>();
   const T *otherPtr = b.dataPtr<T>();
   T *retPtr = retTensor.dataPtr<T>();
@@ -136,13 +154,7 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
                            a.device().index);
 
         // reduce dimension if necessary
-        if (appendB) {
-          if (prependA) {
-            retTensor.reshape_({});
-          } else {
-            retTensor.reshape_({m});
-          }
-        }
+        removeVectorDims();
         return retTensor;
       }
     }
@@ -194,13 +206,7 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
       gemmBatched(cPtrsDevice, aPtrsDevice, bPtrsDevice, m, k, n, batchSize, transA, transB, a.device().index);
 
       // reduce dimension if necessary
-      if (appendB) {
-        if (prependA) {
-          retTensor.reshape_({});
-        } else {
-          retTensor.reshape_({m});
-        }
-      }
+      removeVectorDims();
       return retTensor;
     }
 
@@ -224,19 +230,10 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
     }
   } else {
     gemm(retPtr, selfPtr, otherPtr, m, k, n, transA, transB, a.device().index);
-    if (prependA) {
-      retTensor.reshape_({n});
-    }
   }
 
   // reduce dimension if necessary
-  if (appendB) {
-    if (prependA) {
-      retTensor.reshape_({});
-    } else {
-      retTensor.reshape_({m});
-    }
-  }
+  removeVectorDims();
 
   return retTensor;
 }
-- 
2.43.0


From 012169d929c723c6831a942eb13ee5f2593b12aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 09/77] fix: matmul of zero-size operands gives a zero-size or
 zero result instead of dividing by zero

---
 src/Operation/OpLinalg.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpLinalg.cpp b/src/Operation/OpLinalg.cpp
index f9b25e9..1398cc6 100644
--- a/src/Operation/OpLinalg.cpp
+++ b/src/Operation/OpLinalg.cpp
@@ -33,7 +33,7 @@ SizeVector broadcastShape(const IntArrayView t0, const IntArrayView t1, int64_t
     auto dim1 = t1[idx1];
     if (dim0 != dim1) {
       if (dim0 == 1 || dim1 == 1) {
-        retShape[idxRet] = std::max(dim0, dim1);  // needBroadcast
+        retShape[idxRet] = dim0 == 1 ? dim1 : dim0;  // needBroadcast
       } else {
         return {};
       }
@@ -122,7 +122,10 @@ Tensor matmulOpImplDetail(const Tensor &a, const Tensor &b, bool transA = false,
 
   if (retDimCnt > 2) {
     // batched matrix multiply with broadcasting
-    int64_t batchSize = retTensor.numel() / (m * n);
+    int64_t batchSize = 1;
+    for (int64_t i = 0; i < retDimCnt - 2; i++) {
+      batchSize *= retShape[i];
+    }
 
     // strided batched gemm
     auto gemmStridedBatched = getGemmStridedBatchedFunc<T>(a.device().type);
-- 
2.43.0


From 3a08c0a8c3e47bf587bf710b14858d99716024e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 10/77] fix: flatten counts negative dimensions from the end

---
 src/Tensor/TensorImpl.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Tensor/TensorImpl.cpp b/src/Tensor/TensorImpl.cpp
index b2ea842..527f990 100644
--- a/src/Tensor/TensorImpl.cpp
+++ b/src/Tensor/TensorImpl.cpp
@@ -91,14 +91,17 @@ void TensorImpl::reshape_(const IntArrayView shape) {
 }
 
 void TensorImpl::flatten_(int64_t startDim, int64_t endDim) {
+  if (startDim < 0) {
+    startDim += dim();
+  }
+  if (endDim < 0) {
+    endDim += dim();
+  }
   SizeVector retShape;
   for (int64_t i = 0; i < startDim; i++) {
     retShape.pushBack(shape_[i]);
   }
   int64_t flattenDims = 1;
-  if (endDim < 0) {
-    endDim = dim() - 1;
-  }
   for (int64_t i = startDim; i <= endDim; i++) {
     flattenDims *= shape_[i];
   }
-- 
2.43.0


From 9c3c5ff2e110e4c2e9d5987d0e8e30f1d79d53ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:31 +0000
Subject: [PATCH 11/77] fix: chunking a zero-size dimension gives one empty
 chunk instead of dividing by zero

---
 src/Operation/OpTransform.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index b97ea9c..5285db1 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -243,7 +243,8 @@ std::vector<Tensor> chunkOpImpl(const Tensor& self, int64_t chunks, int64_t dim)
   }
 
   const auto dimSize = self.shape(dim);
-  chunks = std::min(chunks, dimSize);
+  // a zero-size dimension is one empty chunk
+  chunks = std::max<int64_t>(std::min(chunks, dimSize), 1);
   int64_t splitSize = (dimSize + chunks - 1) / chunks;
 
   std::vector<Tensor> retTensors;
@@ -253,7 +254,7 @@ std::vector<Tensor> chunkOpImpl(const Tensor& self, int64_t chunks, int64_t dim)
     int64_t end = std::min(start + splitSize, dimSize);
     int64_t currentSize = end - start;
 
-    if (currentSize <= 0) {
+    if (currentSize <= 0 && i > 0) {
       break;
     }
 
-- 
2.43.0


From df7d7228261a694796d492280ffa02e964a8595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 12/77] fix: indexing a view reads from the view instead of the
 start of its buffer

---
 src/Operation/OpTransform.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Operation/OpTransform.cpp b/src/Operation/OpTransform.cpp
index 5285db1..4f077e6 100644
--- a/src/Operation/OpTransform.cpp
+++ b/src/Operation/OpTransform.cpp
@@ -111,7 +111,7 @@ Tensor indexOpImpl(const Tensor& self, const IntArrayView indices) {
     retShape.pushBack(self.shape(i));
   }
   // share storage
-  auto ret = Tensor(retShape, self.options(), self.storage(), dataIdx);
+  auto ret = Tensor(retShape, self.options(), self.storage(), self.storageOffset() + dataIdx);
   ASSERT(dimStride == ret.numel());
   return ret;
 }
-- 
2.43.0


From a1d26d4cf628f3ed136d00e9467338def34916b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 13/77] fix: writing by index tensors does not change tensors
 sharing the buffer

---
 src/Operation/OpTransformCpu.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Operation/OpTransformCpu.h b/src/Operation/OpTransformCpu.h
index f8d1fe9..f5005e1 100644
--- a/src/Operation/OpTransformCpu.h
+++ b/src/Operation/OpTransformCpu.h
@@ -147,6 +147,7 @@ void indexPutAdvanceOpCpuImpl(Tensor& self, ArrayView<Tensor> indices, const Ten
   auto firstDim = indices[0].numel();
   auto dimStride = self.stride(len - 1);
 
+  self.copyOnWrite();
   T* selfPtr = self.dataPtr<T>();
   const T* valPtr = val.dataPtr<T>();
 
-- 
2.43.0


From e1b4e3abd3ef72cea897888d2b590a9e957a11fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:42 +0000
Subject: [PATCH 14/77] fix: shape operations and evaluation dropout work on
 grad-requiring tensors while recording is disabled

---
 src/Tensor/Function.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Tensor/Function.h b/src/Tensor/Function.h
index e99a597..75fef89 100644
--- a/src/Tensor/Function.h
+++ b/src/Tensor/Function.h
@@ -85,8 +85,9 @@ template <typename TensorType>
 void handleOutputTensor(TensorType& t, bool shouldRequireGrad, const std::shared_ptr<FunctionBase>& fn) {
   if (shouldRequireGrad) {
     t.setRequiresGrad(true, fn);
-  } else {
-    ASSERT(!t.requiresGrad());
+  } else if (t.defined() && t.requiresGrad()) {
+    // derived from a tensor that requires grad while recording is disabled
+    t.setRequiresGrad(false);
   }
 }
 
-- 
2.43.0


From de94d5b4aaa16304dc9347ce6e6b967a4ae1917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 15/77] fix: softmax write-into operations copy a shared result
 buffer before writing

---
 src/Operation/OpNNLayerCpu.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 4a771e1..8fcbdc7 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -18,6 +18,7 @@ void softmaxForwardCpuImpl(Tensor& out, const Tensor& self, int64_t dim) {
   ASSERT(out.shape() == self.shape());
   auto info = getSoftmaxDimInfo(self, dim);
 
+  out.copyOnWrite();
   const T* selfPtr = self.dataPtr<T>();
   T* outPtr = out.dataPtr<T>();
 
-- 
2.43.0


From 706005f1ae8dd7401f2b13e0e9b2df2bfbbe73e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:42 +0000
Subject: [PATCH 16/77] fix: log-softmax can be written into its own input

---
 src/Operation/OpNNLayerCpu.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 8fcbdc7..42de08c 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -41,7 +41,9 @@ void softmaxForwardCpuImpl(Tensor& out, const Tensor& self, int64_t dim) {
       offset = base;
       for (int64_t d = 0; d < info.dimSize; d++) {
         T e = std::exp(selfPtr[offset] - maxVal);
-        outPtr[offset] = e;
+        if constexpr (type == SoftmaxType::Softmax) {
+          outPtr[offset] = e;  // log-softmax reads self again, which may be out
+        }
         sum += e;
         offset += info.innerSize;
       }
-- 
2.43.0


From cff46491966084abf9e627d90c0821dc5590a25a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 17/77] fix: accumulating gradients does not write to the
 upstream gradient or to other tensors' gradients

---
 src/Tensor/AutogradMeta.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index e7925d7..b80be2f 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -30,7 +30,7 @@ void AutogradMeta::addGrad(const Tensor &grad) {
   if (grad_.defined()) {
     op::addInplace(grad_, grad, 1);
   } else {
-    grad_ = grad;
+    grad_ = grad.clone();
   }
 }
 
@@ -38,7 +38,8 @@ void AutogradMeta::addGrad(Tensor &&grad) {
   if (grad_.defined()) {
     op::addInplace(grad_, grad, 1);
   } else {
-    grad_ = std::move(grad);
+    // the same tensor may be delivered to several inputs, and accumulation writes in place
+    grad_ = grad.clone();
   }
 }
 
-- 
2.43.0


From e3dfbc4018bee6ab3e2b6755cecf9829ca15f752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 18/77] fix: a backward pass does not propagate gradients left
 on intermediate results by an earlier pass

---
 src/Tensor/AutogradMeta.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index b80be2f..77592f7 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -68,6 +68,14 @@ void AutogradMeta::backward(const Tensor &grad) {
     buildBackwardGraph();
   }
 
+  // only leaf gradients accumulate over backward passes
+  for (auto &func : backwardGraph_) {
+    auto owner = func->weakOwner.lock();
+    if (owner != nullptr && !owner->isLeaf()) {
+      owner->grad_ = {};
+    }
+  }
+
   addGrad(grad);
   for (auto &currFunc : backwardGraph_) {
     auto owner = currFunc->weakOwner.lock();
-- 
2.43.0


From ed5b1ad2e3425cf77643e6333b814301ab14f8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 19/77] fix: the gradient of permute is permuted back instead
 of reshaped

---
 src/Function/FuncTransform.h | 41 +++++++++++++++++++++++++++++++++---
 1 file changed, 38 insertions(+), 3 deletions(-)

diff --git a/src/Function/FuncTransform.h b/src/Function/FuncTransform.h
index 5afc356..466cc82 100644
--- a/src/Function/FuncTransform.h
+++ b/src/Function/FuncTransform.h
@@ -30,10 +30,45 @@ DEFINE_TRANSFORM_FUNCTION(FuncReshape, (AutogradContext * ctx, const Tensor& sel
 DEFINE_TRANSFORM_FUNCTION(FuncView, (AutogradContext * ctx, const Tensor& self, const IntArrayView shape),
                           return op::view(self, shape););
 
-DEFINE_TRANSFORM_FUNCTION(FuncPermute, (AutogradContext * ctx, const Tensor& self, const IntArrayView dims),
-                          return op::permute(self, dims););
+class FuncPermute : public Function<FuncPermute> {
+ public:
+  static Tensor forward(AutogradContext* ctx, const Tensor& self, const IntArrayView dims) {
+    if (ctx) {
+      // inverse permutation
+      std::vector<IValue> inverse(dims.size());
+      for (size_t i = 0; i < dims.size(); i++) {
+        inverse[dims[i] < 0 ? dims[i] + self.dim() : dims[i]] = static_cast<int64_t>(i);
+      }
+      ctx->pushData(std::move(inverse));
+    }
+    return op::permute(self, dims);
+  }
+
+  static void backward(AutogradContext* ctx, const Tensor& grad) {
+    auto& self = ctx->savedInputs[0];
+
+    if (self.requiresGrad()) {
+      SizeVector dims;
+      for (auto& d : ctx->savedData[0].toList()) {
+        dims.pushBack(d.toInt64());
+      }
+      self.addGrad(op::permute(grad, IntArrayView(dims)));
+    }
+  }
+};
 
-DEFINE_TRANSFORM_FUNCTION(FuncPermuteAll, (AutogradContext * ctx, const Tensor& self), return op::permuteAll(self););
+class FuncPermuteAll : public Function<FuncPermuteAll> {
+ public:
+  static Tensor forward(AutogradContext* ctx, const Tensor& self) { return op::permuteAll(self); }
+
+  static void backward(AutogradContext* ctx, const Tensor& grad) {
+    auto& self = ctx->savedInputs[0];
+
+    if (self.requiresGrad()) {
+      self.addGrad(op::permuteAll(grad));
+    }
+  }
+};
 
 DEFINE_TRANSFORM_FUNCTION(FuncFlatten,
                           (AutogradContext * ctx, const Tensor& self, int64_t startDim = 0, int64_t endDim = -1),
-- 
2.43.0


From 8756e05a481cc4b88c0557f714d255507390988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 20/77] fix: gradients of broadcast operands drop leading
 size-one dimensions the operand does not have

---
 src/Function/FuncElemWise.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Function/FuncElemWise.h b/src/Function/FuncElemWise.h
index 0ccbec0..2cbf9c6 100644
--- a/src/Function/FuncElemWise.h
+++ b/src/Function/FuncElemWise.h
@@ -28,7 +28,7 @@ static Tensor reduceGrad(const Tensor& self, const Tensor& grad) {
   }
 
   if (dims.empty()) {
-    return grad;
+    return grad.shape() == self.shape() ? grad : op::reshape(grad, self.shape());
   }
 
   auto ret = op::sumOnDims(grad, dims, true);
-- 
2.43.0


From 8e51fdfd8f30a81f53ce10c25664b4a0c504dcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 21/77] fix: the gradient of pow is finite at a zero base or a
 zero exponent

---
 src/Operation/OpElemWiseCpu.h    | 4 ++--
 src/Operation/OpElemWiseCuda.cuh | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Operation/OpElemWiseCpu.h b/src/Operation/OpElemWiseCpu.h
index a8bb948..4641f92 100644
--- a/src/Operation/OpElemWiseCpu.h
+++ b/src/Operation/OpElemWiseCpu.h
@@ -182,14 +182,14 @@ struct OpCpuPow {
 struct OpCpuPowBackwardP1 {
   template <typename T>
   static T apply(const T& a, const T& b, const T& grad) {
-    return grad * b * std::pow(a, b - 1);
+    return b == 0 ? T(0) : T(grad * b * std::pow(a, b - 1));
   }
 };
 
 struct OpCpuPowBackwardP2 {
   template <typename T>
   static T apply(const T& a, const T& b, const T& grad) {
-    return grad * std::pow(a, b) * std::log(a);
+    return (a == 0 && b >= 0) ? T(0) : T(grad * std::pow(a, b) * std::log(a));
   }
 };
 
diff --git a/src/Operation/OpElemWiseCuda.cuh b/src/Operation/OpElemWiseCuda.cuh
index cbb3464..5abb4b4 100644
--- a/src/Operation/OpElemWiseCuda.cuh
+++ b/src/Operation/OpElemWiseCuda.cuh
@@ -185,14 +185,14 @@ struct OpCudaPow {
 struct OpCudaPowBackwardP1 {
   template <typename T>
   __device__ static T apply(const T& a, const T& b, const T& grad) {
-    return grad * b * cuda::pow(a, b - T(1));
+    return b == T(0) ? T(0) : T(grad * b * cuda::pow(a, b - T(1)));
   }
 };
 
 struct OpCudaPowBackwardP2 {
   template <typename T>
   __device__ static T apply(const T& a, const T& b, const T& grad) {
-    return grad * cuda::pow(a, b) * cuda::log(a);
+    return (a == T(0) && b >= T(0)) ? T(0) : T(grad * cuda::pow(a, b) * cuda::log(a));
   }
 };
 
-- 
2.43.0


From f5a2f1a1cb106d8ce65c0ebb96ef346cbce7f081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 22/77] fix: conv2d puts each output channel in its own plane
 for several channels

---
 src/Function/FuncNNLayer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 1003673..c7d46d4 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -167,7 +167,8 @@ class FuncConv2D : public Function<FuncConv2D> {
       ASSERT(bias.shape()[0] == outChannels);
       op::addInplace(ret, bias, 1);
     }
-    ret.reshape_({batch, outChannels, outH, outW});
+    // [N * outH * outW, outC] -> [N, outC, outH, outW]
+    ret = op::permute(op::reshape(ret, IntArrayView{batch, outH, outW, outChannels}), IntArrayView{0, 3, 1, 2});
 
     if (ctx) {
       ctx->pushData(stride);
@@ -188,7 +189,7 @@ class FuncConv2D : public Function<FuncConv2D> {
     auto stride = ctx->popData().toDim2D();
     auto padding = ctx->popData().toDim2D();
 
-    auto gradW = op::reshape(grad, IntArrayView{-1, outChannels});
+    auto gradW = op::reshape(op::permute(grad, IntArrayView{0, 2, 3, 1}), IntArrayView{-1, outChannels});
     auto colW = op::reshape(weight, IntArrayView{outChannels, -1});
 
     if (input.requiresGrad()) {
-- 
2.43.0


From 647e64438c9580e207e5c9db047f0e70f72d20fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 23/77] fix: the weight and bias gradients of linear sum over
 all leading dimensions

---
 src/Function/FuncNNLayer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index c7d46d4..8fde3d5 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -27,14 +27,17 @@ class FuncLinear : public Function<FuncLinear> {
     auto& weight = ctx->savedInputs[1];
     auto& bias = ctx->savedInputs[2];
 
+    // leading dimensions of the input all count as batch
+    auto grad2d = op::reshape(grad, IntArrayView{-1, weight.shape(0)});
     if (input.requiresGrad()) {
       input.addGrad(op::matmul(grad, weight, false, false));
     }
     if (weight.requiresGrad()) {
-      weight.addGrad(op::matmul(grad, input, true, false));
+      auto input2d = op::reshape(input, IntArrayView{-1, weight.shape(1)});
+      weight.addGrad(op::matmul(grad2d, input2d, true, false));
     }
     if (bias.defined() && bias.requiresGrad()) {
-      bias.addGrad(op::sumOnDim(grad, 0, false));
+      bias.addGrad(op::sumOnDim(grad2d, 0, false));
     }
   }
 };
-- 
2.43.0


From 4f8fd38b62f147bedaec818a04e7c1f59007e109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:38 +0000
Subject: [PATCH 24/77] fix: maxPool2d pools each channel in its own plane,
 ignores padding and keeps 3-d inputs 3-d

---
 src/Function/FuncNNLayer.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 8fde3d5..5158f73 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -92,13 +92,21 @@ class FuncMaxPool : public Function<FuncMaxPool> {
     auto outW = (width - kernel.w + 2 * padding.w) / stride.w + 1;
 
     auto col = op::im2col(input, kernel, stride, padding);
+    if (padding.h > 0 || padding.w > 0) {
+      // padding never wins
+      auto inside = op::im2col(Tensor::onesLike(input, input.options().noGrad()), kernel, stride, padding);
+      op::fillMaskedInplace(col, inside == 0, -std::numeric_limits<float>::infinity());
+    }
     col.reshape_({-1, kernel.h * kernel.w});
 
     auto maxRet = op::maxOnDim(col, 1, false);
     auto maxIndices = maxRet.second;
 
-    auto output = maxRet.first;
-    output.reshape_({batch, channels, outH, outW});
+    // [N * outH * outW, C] -> [N, C, outH, outW]
+    auto output = op::permute(op::reshape(maxRet.first, IntArrayView{batch, outH, outW, channels}), IntArrayView{0, 3, 1, 2});
+    if (shape.size() == 3) {
+      output.reshape_({channels, outH, outW});
+    }
 
     if (ctx) {
       ctx->pushData(kernel);
@@ -134,7 +142,9 @@ class FuncMaxPool : public Function<FuncMaxPool> {
 
       auto gradCol = Tensor::zeros({grad.numel(), kernel.h * kernel.w}, input.options().noGrad());
       auto idx = Tensor::arange<int64_t>(0, grad.numel(), 1, input.options().noGrad());
-      op::indexPutAdvance(gradCol, ArrayView<Tensor>{idx, maxIndices}, grad);
+      auto gradNchw = op::reshape(grad, IntArrayView{batch, channels, outH, outW});
+      auto gradRows = op::permute(gradNchw, IntArrayView{0, 2, 3, 1});
+      op::indexPutAdvance(gradCol, ArrayView<Tensor>{idx, maxIndices}, gradRows);
       gradCol.reshape_({batch * outH * outW, channels * kernel.h * kernel.w});
       auto inputGrad = op::col2im(gradCol, shape, kernel, stride, padding);
       // TODO fuse
-- 
2.43.0


From 8906606fd8c72df1c7f81e9f2cf8b1243f6bfa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:38 +0000
Subject: [PATCH 25/77] fix: compound assignment records its operation like the
 expression it abbreviates

---
 src/Tensor/Tensor.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index bac3612..3371100 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -109,6 +109,11 @@ void Tensor::initAutogradMeta(const std::shared_ptr<FunctionBase> &fn) {
 
 void Tensor::inplaceSet(Tensor &&val) {
   auto reqGrad = requiresGrad();
+  if (val.requiresGrad() && !(reqGrad && isLeaf())) {
+    // part of a recorded computation
+    *this = std::move(val);
+    return;
+  }
   impl_ = std::move(val.impl_);
   impl_->options().requiresGrad(reqGrad);
 }
-- 
2.43.0


From 949c9826bcab68f3f6e8adc374b009ee07b23a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:38 +0000
Subject: [PATCH 26/77] fix: requiring gradients again does not cut a tensor
 out of its recorded computation

---
 src/Tensor/Tensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index 3371100..ddb2a06 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -92,6 +92,9 @@ Tensor Tensor::fullLike(const Tensor &t, const Scalar &scalar, std::optional<Opt
 }
 
 void Tensor::setRequiresGrad(bool require, const std::shared_ptr<FunctionBase> &fn) {
+  if (require && requiresGrad() && gradMeta_ != nullptr && fn == nullptr) {
+    return;
+  }
   impl_->options().requiresGrad_ = require;
   initAutogradMeta(fn);
 }
-- 
2.43.0


From 1225a08e828ff0eafc72fdc1e366852a72ffa1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:48 +0000
Subject: [PATCH 27/77] fix: nll loss gradient scales with the upstream
 gradient

---
 src/Operation/OpLossCpu.h    | 2 +-
 src/Operation/OpLossCuda.cuh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpLossCpu.h b/src/Operation/OpLossCpu.h
index 4c10b25..5fc15cd 100644
--- a/src/Operation/OpLossCpu.h
+++ b/src/Operation/OpLossCpu.h
@@ -79,7 +79,7 @@ Tensor nllLossOpBackwardCpuImpl(const Tensor& grad, const Tensor& input, const T
   auto batchSize = input.shape(0);
   auto idx = Tensor::arange<int64_t>(0, batchSize, 1, input.options().noGrad());
   Tensor out = Tensor::zeros(input.shape(), input.options().noGrad());
-  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, Tensor::scalar(-1, out.options().noGrad()));
+  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, op::neg(grad));
 
   switch (reduction) {
     case LossReduction::MEAN:
diff --git a/src/Operation/OpLossCuda.cuh b/src/Operation/OpLossCuda.cuh
index d62baf0..be215f9 100644
--- a/src/Operation/OpLossCuda.cuh
+++ b/src/Operation/OpLossCuda.cuh
@@ -79,7 +79,7 @@ Tensor nllLossOpBackwardCudaImpl(const Tensor& grad, const Tensor& input, const
   auto batchSize = input.shape(0);
   auto idx = Tensor::arange<int64_t>(0, batchSize, 1, input.options().noGrad());
   Tensor out = Tensor::zeros(input.shape(), input.options().noGrad());
-  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, Tensor::scalar(-1, out.options().noGrad()));
+  op::indexPutAdvance(out, ArrayView<Tensor>{idx, target}, op::neg(grad));
 
   switch (reduction) {
     case LossReduction::MEAN:
-- 
2.43.0


From eac5fca73a2c357c6c4d04fcb441565f62d45052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:21 +0000
Subject: [PATCH 28/77] fix: mse loss gradient when input and target broadcast

---
 src/Function/FuncLoss.h      | 3 ++-
 src/Operation/OpLossCpu.h    | 2 +-
 src/Operation/OpLossCuda.cuh | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Function/FuncLoss.h b/src/Function/FuncLoss.h
index 1f54ca7..f485f31 100644
--- a/src/Function/FuncLoss.h
+++ b/src/Function/FuncLoss.h
@@ -6,6 +6,7 @@
 
 #pragma once
 
+#include "FuncElemWise.h"
 #include "Operations.h"
 #include "Tensor/Function.h"
 
@@ -28,7 +29,7 @@ namespace tinytorch::function {
       auto reduction = ctx->popData().toEnum<LossReduction>();                                                        \
                                                                                                                       \
       if (input.requiresGrad()) {                                                                                     \
-        input.addGrad(BACKWARD_OP(grad, input, target, reduction));                                                   \
+        input.addGrad(reduceGrad(input, BACKWARD_OP(grad, input, target, reduction)));                                \
       }                                                                                                               \
       ASSERT(!target.requiresGrad());                                                                                 \
     }                                                                                                                 \
diff --git a/src/Operation/OpLossCpu.h b/src/Operation/OpLossCpu.h
index 5fc15cd..00b89bf 100644
--- a/src/Operation/OpLossCpu.h
+++ b/src/Operation/OpLossCpu.h
@@ -42,7 +42,7 @@ Tensor mseLossOpBackwardCpuImpl(const Tensor& grad, const Tensor& input, const T
 
   switch (reduction) {
     case LossReduction::MEAN:
-      op::divInplace(out, Tensor::scalar(input.numel(), out.options().noGrad()));
+      op::divInplace(out, Tensor::scalar(out.numel(), out.options().noGrad()));
       break;
     default:
       break;
diff --git a/src/Operation/OpLossCuda.cuh b/src/Operation/OpLossCuda.cuh
index be215f9..6f8882f 100644
--- a/src/Operation/OpLossCuda.cuh
+++ b/src/Operation/OpLossCuda.cuh
@@ -42,7 +42,7 @@ Tensor mseLossOpBackwardCudaImpl(const Tensor& grad, const Tensor& input, const
 
   switch (reduction) {
     case LossReduction::MEAN:
-      op::divInplace(out, Tensor::scalar(input.numel(), out.options().noGrad()));
+      op::divInplace(out, Tensor::scalar(out.numel(), out.options().noGrad()));
       break;
     default:
       break;
-- 
2.43.0


From 7c13b33f4a08cd1b8081a449ddce1c5bf7c09a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:52 +0000
Subject: [PATCH 29/77] fix: hook ids stay valid when another hook is
 unregistered

---
 src/Tensor/AutogradMeta.cpp | 12 +++++++-----
 src/Tensor/AutogradMeta.h   |  3 ++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/Tensor/AutogradMeta.cpp b/src/Tensor/AutogradMeta.cpp
index 77592f7..48acfde 100644
--- a/src/Tensor/AutogradMeta.cpp
+++ b/src/Tensor/AutogradMeta.cpp
@@ -6,6 +6,7 @@
 
 #include "AutogradMeta.h"
 
+#include <algorithm>
 #include <queue>
 #include <set>
 
@@ -85,17 +86,18 @@ void AutogradMeta::backward(const Tensor &grad) {
 }
 
 int64_t AutogradMeta::registerHook(Hook::FnType fn, void *ctx) {
-  hooks_.push_back({fn, ctx});
-  return static_cast<int64_t>(hooks_.size() - 1);
+  hooks_.emplace_back(nextHookId_, Hook{fn, ctx});
+  return nextHookId_++;
 }
 
 void AutogradMeta::unregisterHook(int64_t hid) {
-  ASSERT(hid >= 0 && hid < static_cast<int64_t>(hooks_.size()));
-  hooks_.erase(hooks_.begin() + hid);
+  auto it = std::find_if(hooks_.begin(), hooks_.end(), [hid](const auto &h) { return h.first == hid; });
+  ASSERT(it != hooks_.end());
+  hooks_.erase(it);
 }
 
 void AutogradMeta::applyHooks() {
-  for (auto &h : hooks_) {
+  for (auto &[hid, h] : hooks_) {
     h.fn(h.ctx, grad_);
   }
 }
diff --git a/src/Tensor/AutogradMeta.h b/src/Tensor/AutogradMeta.h
index 805a465..65411ed 100644
--- a/src/Tensor/AutogradMeta.h
+++ b/src/Tensor/AutogradMeta.h
@@ -40,7 +40,8 @@ class AutogradMeta : public std::enable_shared_from_this<AutogradMeta> {
   Tensor grad_;
   std::shared_ptr<FunctionBase> gradFn_;
   std::vector<std::shared_ptr<FunctionBase>> backwardGraph_;
-  std::vector<Hook> hooks_;
+  std::vector<std::pair<int64_t, Hook>> hooks_;
+  int64_t nextHookId_ = 0;
 };
 
 }  // namespace tinytorch
-- 
2.43.0


From 25559a9eec39f0fbc4e4ebf161a0c1948dad7140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:51 +0000
Subject: [PATCH 30/77] fix: requiring gradients through a handle no longer
 breaks its other copies

---
 src/Tensor/Tensor.cpp | 6 +++---
 src/Tensor/Tensor.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Tensor/Tensor.cpp b/src/Tensor/Tensor.cpp
index ddb2a06..942faa5 100644
--- a/src/Tensor/Tensor.cpp
+++ b/src/Tensor/Tensor.cpp
@@ -92,7 +92,7 @@ Tensor Tensor::fullLike(const Tensor &t, const Scalar &scalar, std::optional<Opt
 }
 
 void Tensor::setRequiresGrad(bool require, const std::shared_ptr<FunctionBase> &fn) {
-  if (require && requiresGrad() && gradMeta_ != nullptr && fn == nullptr) {
+  if (require && requiresGrad() && fn == nullptr) {
     return;
   }
   impl_->options().requiresGrad_ = require;
@@ -100,7 +100,7 @@ void Tensor::setRequiresGrad(bool require, const std::shared_ptr<FunctionBase> &
 }
 
 void Tensor::initAutogradMeta(const std::shared_ptr<FunctionBase> &fn) {
-  if (requiresGrad()) {
+  if (impl_->requiresGrad()) {
     if (gradMeta_ == nullptr) {
       gradMeta_ = std::make_unique<AutogradMeta>();
     }
@@ -133,7 +133,7 @@ void Tensor::backwardImpl(const Tensor &grad) const {
 Tensor Tensor::clone() const {
   Tensor ret;
   ret.impl_ = std::make_shared<TensorImpl>(*this->impl_);
-  ret.initAutogradMeta();
+  ret.setRequiresGrad(requiresGrad());
   return ret;
 }
 
diff --git a/src/Tensor/Tensor.h b/src/Tensor/Tensor.h
index bad7ef0..b55e568 100644
--- a/src/Tensor/Tensor.h
+++ b/src/Tensor/Tensor.h
@@ -88,7 +88,7 @@ class Tensor {
   DType dtype() const { return impl_->dtype(); }
   Device device() const { return impl_->device(); }
   bool pinnedMemory() const { return impl_->pinnedMemory(); }
-  bool requiresGrad() const { return impl_->requiresGrad(); }
+  bool requiresGrad() const { return gradMeta_ != nullptr; }
   void setRequiresGrad(bool require, const std::shared_ptr<FunctionBase>& fn = nullptr);
 
   int64_t dim() const { return impl_->dim(); }
-- 
2.43.0


From dc5a29fc20e2afacafdd7d5f3e63d9cf69701621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:47 +0000
Subject: [PATCH 31/77] fix: softmax over long half and bfloat16 dimensions
 sums in float

---
 src/Operation/OpNNLayerCpu.h | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 42de08c..ecd5506 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -27,22 +27,22 @@ void softmaxForwardCpuImpl(Tensor& out, const Tensor& self, int64_t dim) {
     for (int64_t i = 0; i < info.innerSize; i++) {
       int64_t base = outerBase + i;
       // max
-      T maxVal = -std::numeric_limits<T>::max();
+      float maxVal = -std::numeric_limits<float>::max();
       int64_t offset = base;
       for (int64_t d = 0; d < info.dimSize; d++) {
-        T v = selfPtr[offset];
+        auto v = static_cast<float>(selfPtr[offset]);
         if (v > maxVal) {
           maxVal = v;
         }
         offset += info.innerSize;
       }
       // exp & sum
-      T sum = 0;
+      float sum = 0;
       offset = base;
       for (int64_t d = 0; d < info.dimSize; d++) {
-        T e = std::exp(selfPtr[offset] - maxVal);
+        float e = std::exp(static_cast<float>(selfPtr[offset]) - maxVal);
         if constexpr (type == SoftmaxType::Softmax) {
-          outPtr[offset] = e;  // log-softmax reads self again, which may be out
+          outPtr[offset] = static_cast<T>(e);  // log-softmax reads self again, which may be out
         }
         sum += e;
         offset += info.innerSize;
@@ -50,15 +50,15 @@ void softmaxForwardCpuImpl(Tensor& out, const Tensor& self, int64_t dim) {
       // output
       offset = base;
       if constexpr (type == SoftmaxType::Softmax) {
-        T invSum = 1.0 / sum;
+        float invSum = 1.f / sum;
         for (int64_t d = 0; d < info.dimSize; d++) {
-          outPtr[offset] *= invSum;
+          outPtr[offset] = static_cast<T>(static_cast<float>(outPtr[offset]) * invSum);
           offset += info.innerSize;
         }
       } else {  // LogSoftmax
-        T logSum = std::log(sum);
+        float logSum = std::log(sum);
         for (int64_t d = 0; d < info.dimSize; d++) {
-          outPtr[offset] = selfPtr[offset] - maxVal - logSum;
+          outPtr[offset] = static_cast<T>(static_cast<float>(selfPtr[offset]) - maxVal - logSum);
           offset += info.innerSize;
         }
       }
@@ -93,16 +93,16 @@ Tensor softmaxOpBackwardCpuImpl(const Tensor& grad, const Tensor& output, int64_
     for (int64_t i = 0; i < info.innerSize; i++) {
       int64_t base = outerBase + i;
       // sum_j(y_j * dL/dy_j)
-      T sum = 0;
+      float sum = 0;
       int64_t offset = base;
       for (int64_t d = 0; d < info.dimSize; d++) {
-        sum += outputPtr[offset] * gradPtr[offset];
+        sum += static_cast<float>(outputPtr[offset]) * static_cast<float>(gradPtr[offset]);
         offset += info.innerSize;
       }
       // dL/dx_i = y_i * (dL/dy_i - sum)
       offset = base;
       for (int64_t d = 0; d < info.dimSize; d++) {
-        outPtr[offset] = outputPtr[offset] * (gradPtr[offset] - sum);
+        outPtr[offset] = static_cast<T>(static_cast<float>(outputPtr[offset]) * (static_cast<float>(gradPtr[offset]) - sum));
         offset += info.innerSize;
       }
     }
@@ -138,16 +138,17 @@ Tensor logSoftmaxOpBackwardCpuImpl(const Tensor& grad, const Tensor& output, int
     for (int64_t i = 0; i < info.innerSize; i++) {
       int64_t base = outerBase + i;
       // sum_j(dL/dy_j)
-      T sum = 0;
+      float sum = 0;
       int64_t offset = base;
       for (int64_t d = 0; d < info.dimSize; d++) {
-        sum += gradPtr[offset];
+        sum += static_cast<float>(gradPtr[offset]);
         offset += info.innerSize;
       }
       // dL/dx_i = dL/dy_i - exp(y_i) * sum
       offset = base;
       for (int64_t d = 0; d < info.dimSize; d++) {
-        outPtr[offset] = gradPtr[offset] - std::exp(outputPtr[offset]) * sum;
+        outPtr[offset] =
+            static_cast<T>(static_cast<float>(gradPtr[offset]) - std::exp(static_cast<float>(outputPtr[offset])) * sum);
         offset += info.innerSize;
       }
     }
-- 
2.43.0


From 2edf5a2385a60f5d44933310814d48327db6646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:50 +0000
Subject: [PATCH 32/77] fix: layer and RMS norm of half tensors overflowed,
 compute statistics in float

---
 src/Operation/OpNNLayerCpu.h | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index ecd5506..864e60e 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -200,39 +200,39 @@ Tensor normOpCpuImplDetail(const Tensor& self, IntArrayView normalizedShape, con
     T* dst = outPtr + i * dim;
 
     if constexpr (normType == NormType::LayerNorm) {
-      T mean = 0;
+      float mean = 0;
       for (auto j = 0; j < dim; j++) {
-        mean += src[j];
+        mean += static_cast<float>(src[j]);
       }
-      mean /= static_cast<T>(dim);
+      mean /= static_cast<float>(dim);
 
-      T var = 0;
+      float var = 0;
       for (auto j = 0; j < dim; j++) {
-        T diff = src[j] - mean;
+        float diff = static_cast<float>(src[j]) - mean;
         var += diff * diff;
       }
-      var /= static_cast<T>(dim);
-      T invStd = T(1) / std::sqrt(var + eps);
+      var /= static_cast<float>(dim);
+      float invStd = 1.f / std::sqrt(var + eps);
 
       for (auto j = 0; j < dim; j++) {
-        T normed = (src[j] - mean) * invStd;
-        if (weightPtr) normed *= weightPtr[j];
-        if (biasPtr) normed += biasPtr[j];
-        dst[j] = normed;
+        float normed = (static_cast<float>(src[j]) - mean) * invStd;
+        if (weightPtr) normed *= static_cast<float>(weightPtr[j]);
+        if (biasPtr) normed += static_cast<float>(biasPtr[j]);
+        dst[j] = static_cast<T>(normed);
       }
     } else {
       UNUSED(biasPtr);
-      T meanSquare = 0;
+      float meanSquare = 0;
       for (auto j = 0; j < dim; j++) {
-        meanSquare += src[j] * src[j];
+        meanSquare += static_cast<float>(src[j]) * static_cast<float>(src[j]);
       }
-      meanSquare /= static_cast<T>(dim);
-      T invRms = T(1) / std::sqrt(meanSquare + eps);
+      meanSquare /= static_cast<float>(dim);
+      float invRms = 1.f / std::sqrt(meanSquare + eps);
 
       for (auto j = 0; j < dim; j++) {
-        T normed = src[j] * invRms;
-        if (weightPtr) normed *= weightPtr[j];
-        dst[j] = normed;
+        float normed = static_cast<float>(src[j]) * invRms;
+        if (weightPtr) normed *= static_cast<float>(weightPtr[j]);
+        dst[j] = static_cast<T>(normed);
       }
     }
   }
-- 
2.43.0


From a049e9b275873eaceb14b7ea63cdc2b00f82db71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:53 +0000
Subject: [PATCH 33/77] fix: rope angles of half and bfloat16 tables are
 computed in float

---
 src/Operation/OpNNLayerCpu.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 864e60e..22ecbb6 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -261,8 +261,8 @@ Tensor ropeInitOpCpuImpl(int64_t headDim, int64_t contextLength, float thetaBase
   int64_t halfDim = headDim >> 1;
 
   // inverse frequency
-  Tensor invFreq({halfDim}, options);
-  auto* invFreqPtr = invFreq.dataPtr<T>();
+  Tensor invFreq({halfDim}, Options(options).dtype(DType::Float32));
+  auto* invFreqPtr = invFreq.dataPtr<float>();
   for (int64_t i = 0; i < halfDim; i++) {
     invFreqPtr[i] = 1.f / std::pow(thetaBase, static_cast<float>(i << 1) / static_cast<float>(headDim));
   }
@@ -294,7 +294,7 @@ Tensor ropeInitOpCpuImpl(int64_t headDim, int64_t contextLength, float thetaBase
 
   for (int64_t pos = 0; pos < contextLength; pos++) {
     for (int64_t i = 0; i < halfDim; i++) {
-      float angle = static_cast<T>(pos) * invFreqPtr[i];
+      float angle = static_cast<float>(pos) * invFreqPtr[i];
       float cosVal = std::cos(angle);
       float sinVal = std::sin(angle);
 
-- 
2.43.0


From 58f7ec7f309828981138274928f5fe7803c061af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:13 +0000
Subject: [PATCH 34/77] fix: attention dropout kept instead of dropped with the
 given probability

---
 src/Function/FuncNNLayer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Function/FuncNNLayer.h b/src/Function/FuncNNLayer.h
index 5158f73..ec0d00c 100644
--- a/src/Function/FuncNNLayer.h
+++ b/src/Function/FuncNNLayer.h
@@ -284,7 +284,7 @@ class FuncSDPAttention : public Function<FuncSDPAttention> {
     }
     attnWeight = op::softmax(attnWeight, -1);
     if (dropoutP > 0.f) {
-      attnWeight = op::dropout(attnWeight, dropoutP);
+      attnWeight = op::dropout(attnWeight, 1.f - dropoutP);
     }
     return op::matmul(attnWeight, value, false, false);
     // TODO fuse
-- 
2.43.0


From 10acc9b82c904da6af7c6b36c4cd70b483c3e9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:33 +0000
Subject: [PATCH 35/77] fix: dropout with probability one gave NaN instead of
 zeros

---
 src/Operation/OpNNLayerCpu.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index 22ecbb6..b125c1d 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -165,7 +165,7 @@ Tensor dropoutOpCpuImpl(const Tensor& self, float p) {
   auto generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
-    outPtr[i] = static_cast<T>(static_cast<float>(selfPtr[i]) * static_cast<float>(distribution(generator)) / p);
+    outPtr[i] = distribution(generator) ? static_cast<T>(static_cast<float>(selfPtr[i]) / p) : T(0);
   }
   return out;
 }
@@ -176,7 +176,7 @@ Tensor dropoutMaskedOpCpuImpl(const Tensor& self, const Tensor& mask, float p) {
   auto outShape = iterator.setupBroadcast();
   ASSERT(iterator.isBroadcastOk());
   Tensor out(outShape, self.options().noGrad());
-  iterator.template forEach<T>(out, [p](const T& a, const T& b) -> T { return a * b / p; });
+  iterator.template forEach<T>(out, [p](const T& a, const T& b) -> T { return static_cast<float>(b) == 0.f ? T(0) : T(a * b / p); });
   return out;
 }
 
-- 
2.43.0


From d63d52cb85fdc8ccbc777204c72d0d7a5e8e258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:25 +0000
Subject: [PATCH 36/77] fix: SGD momentum shared its first buffer with the
 gradient and was cleared with it

---
 src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index b3c4a11..27c9897 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -69,7 +69,7 @@ void SGD::doStep() {
     }
     if (momentum_ != 0.f) {
       auto &buf = momentumBuffer_[i];
-      buf = buf.defined() ? (momentum_ * buf + (1.f - dampening_) * grad) : grad;
+      buf = buf.defined() ? (momentum_ * buf + (1.f - dampening_) * grad) : grad.clone();
       if (nesterov_) {
         grad += momentum_ * buf;
       } else {
-- 
2.43.0


From 9be4a69286cbdbe895c9bb1989e62eaf8971585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:28 +0000
Subject: [PATCH 37/77] fix: centered RMSprop divided by the variance instead
 of its square root

---
 src/Optimizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index 27c9897..57c6ee8 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -134,7 +134,7 @@ void RMSprop::doStep() {
     if (centered_) {
       auto &g = gradAvg_[i];
       g = alpha_ * g + (1.f - alpha_) * grad;
-      avg = v - g * g;
+      avg = (v - g * g).sqrt();
     } else {
       avg = v.sqrt();
     }
-- 
2.43.0


From 0513d9da69f03ea4f513be3600e782f4a69ee894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:32 +0000
Subject: [PATCH 38/77] fix: AdamW decayed parameters that have no gradient

---
 src/Optimizer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index 57c6ee8..0164d2e 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -215,7 +215,9 @@ AdamW::AdamW(std::vector<TensorPtr> &&parameters, float lr, const std::pair<floa
     : Adam(std::move(parameters), lr, betas, eps, weightDecay, amsGrad) {}
 
 Tensor AdamW::getDecayedGrad(TensorPtr param) const {
-  *param *= (1.f - lr_ * weightDecay_);
+  if (param->grad().defined()) {
+    *param *= (1.f - lr_ * weightDecay_);
+  }
   return param->grad();
 }
 
-- 
2.43.0


From 46ab522b344c82d17ac75c649eadb13d1033a39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:49 +0000
Subject: [PATCH 39/77] fix: StepLR ignored completed periods when stepped to a
 given epoch

---
 src/Scheduler.cpp | 6 ++++++
 src/Scheduler.h   | 8 ++++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Scheduler.cpp b/src/Scheduler.cpp
index 83cfed0..b037e4f 100644
--- a/src/Scheduler.cpp
+++ b/src/Scheduler.cpp
@@ -6,6 +6,8 @@
 
 #include "Scheduler.h"
 
+#include <cmath>
+
 namespace tinytorch::optim::lr_scheduler {
 
 float StepLR::getLr() {
@@ -15,4 +17,8 @@ float StepLR::getLr() {
   return optimizer_.getLr() * gamma_;
 }
 
+float StepLR::getClosedFormLr() {
+  return baseLr_ * std::pow(gamma_, static_cast<float>(lastEpoch_ / stepSize_));
+}
+
 }  // namespace tinytorch::optim::lr_scheduler
diff --git a/src/Scheduler.h b/src/Scheduler.h
index f351692..6ee8228 100644
--- a/src/Scheduler.h
+++ b/src/Scheduler.h
@@ -16,7 +16,7 @@ class Scheduler {
  public:
   virtual ~Scheduler() = default;
   explicit Scheduler(Optimizer &optimizer, int64_t lastEpoch = -1)
-      : optimizer_(optimizer), lastEpoch_(lastEpoch), stepCount_(0), lastLr_(0) {
+      : optimizer_(optimizer), lastEpoch_(lastEpoch), stepCount_(0), lastLr_(0), baseLr_(optimizer.getLr()) {
     initialStep();
   }
 
@@ -28,7 +28,7 @@ class Scheduler {
       lastEpoch_++;
     }
 
-    lastLr_ = getLr();
+    lastLr_ = epoch.has_value() ? getClosedFormLr() : getLr();
     optimizer_.setLr(lastLr_);
   }
 
@@ -41,11 +41,14 @@ class Scheduler {
     step();
   }
   virtual float getLr() { return optimizer_.getLr(); }
+  // rate at lastEpoch_, which may have been reached by a jump
+  virtual float getClosedFormLr() { return getLr(); }
 
   Optimizer &optimizer_;
   int64_t lastEpoch_;
   int64_t stepCount_;
   float lastLr_;
+  float baseLr_;
 };
 
 class StepLR : public Scheduler {
@@ -54,6 +57,7 @@ class StepLR : public Scheduler {
       : Scheduler(optimizer, lastEpoch), stepSize_(stepSize), gamma_(gamma) {}
 
   float getLr() override;
+  float getClosedFormLr() override;
 
  private:
   int64_t stepSize_;
-- 
2.43.0


From b5d3cc2abd832c33c692d8c756271227ae675d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:11 +0000
Subject: [PATCH 40/77] fix: half and bfloat16 equality compared bits instead
 of values

---
 src/Utils/BFloat16.h | 4 ++--
 src/Utils/Half.h     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Utils/BFloat16.h b/src/Utils/BFloat16.h
index 8b04b94..1599ae4 100644
--- a/src/Utils/BFloat16.h
+++ b/src/Utils/BFloat16.h
@@ -292,9 +292,9 @@ inline HOST_DEVICE bool operator>=(BFloat16& lhs, BFloat16& rhs) { return float(
 
 inline HOST_DEVICE bool operator<=(BFloat16& lhs, BFloat16& rhs) { return float(lhs) <= float(rhs); }
 
-inline HOST_DEVICE bool operator==(BFloat16& lhs, BFloat16& rhs) { return lhs.x == rhs.x; }
+inline HOST_DEVICE bool operator==(BFloat16& lhs, BFloat16& rhs) { return float(lhs) == float(rhs); }
 
-inline HOST_DEVICE bool operator!=(BFloat16& lhs, BFloat16& rhs) { return lhs.x != rhs.x; }
+inline HOST_DEVICE bool operator!=(BFloat16& lhs, BFloat16& rhs) { return float(lhs) != float(rhs); }
 
 }  // namespace tinytorch
 
diff --git a/src/Utils/Half.h b/src/Utils/Half.h
index bf99a6a..d1fe2a9 100644
--- a/src/Utils/Half.h
+++ b/src/Utils/Half.h
@@ -540,9 +540,9 @@ inline HOST_DEVICE bool operator>=(Half& lhs, Half& rhs) { return float(lhs) >=
 
 inline HOST_DEVICE bool operator<=(Half& lhs, Half& rhs) { return float(lhs) <= float(rhs); }
 
-inline HOST_DEVICE bool operator==(Half& lhs, Half& rhs) { return lhs.x == rhs.x; }
+inline HOST_DEVICE bool operator==(Half& lhs, Half& rhs) { return float(lhs) == float(rhs); }
 
-inline HOST_DEVICE bool operator!=(Half& lhs, Half& rhs) { return lhs.x != rhs.x; }
+inline HOST_DEVICE bool operator!=(Half& lhs, Half& rhs) { return float(lhs) != float(rhs); }
 
 }  // namespace tinytorch
 
-- 
2.43.0


From 778fd01e610a91d6289d56288cb13e06410c26b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:27 +0000
Subject: [PATCH 41/77] fix: conversion to Bool truncated instead of testing
 for zero

---
 src/Operation/OpTransformCpu.cpp | 6 +++++-
 src/Tensor/Scalar.h              | 2 ++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Operation/OpTransformCpu.cpp b/src/Operation/OpTransformCpu.cpp
index 13bc098..d084a52 100644
--- a/src/Operation/OpTransformCpu.cpp
+++ b/src/Operation/OpTransformCpu.cpp
@@ -13,7 +13,11 @@ void dtypeCastCpuKernel(const void* src, void* dst, int64_t numel) {
   const SrcT* srcPtr = static_cast<const SrcT*>(src);
   DstT* dstPtr = static_cast<DstT*>(dst);
   for (auto i = 0; i < numel; i++) {
-    dstPtr[i] = static_cast<DstT>(srcPtr[i]);
+    if constexpr (std::is_same_v<DstT, DTypeToType_t<DType::Bool>>) {
+      dstPtr[i] = static_cast<float>(srcPtr[i]) != 0.f;
+    } else {
+      dstPtr[i] = static_cast<DstT>(srcPtr[i]);
+    }
   }
 }
 
diff --git a/src/Tensor/Scalar.h b/src/Tensor/Scalar.h
index 2dab524..c0bf30f 100644
--- a/src/Tensor/Scalar.h
+++ b/src/Tensor/Scalar.h
@@ -39,6 +39,8 @@ class Scalar {
           using U = std::decay_t<decltype(val)>;
           if constexpr (std::is_same_v<U, T>) {
             return val;
+          } else if constexpr (std::is_same_v<T, DTypeToType_t<DType::Bool>>) {
+            return static_cast<float>(val) != 0.f;
           } else {
             return static_cast<T>(val);
           }
-- 
2.43.0


From e2071efb3c8e655d215b9db2f786ae9ae7c81c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:33 +0000
Subject: [PATCH 42/77] fix: switching the cache with live blocks freed them to
 the wrong allocator

---
 src/Tensor/CachedAllocator.cpp | 10 ++++++++++
 src/Tensor/CachedAllocator.h   |  9 ++-------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/Tensor/CachedAllocator.cpp b/src/Tensor/CachedAllocator.cpp
index 6baa2c3..a83f848 100644
--- a/src/Tensor/CachedAllocator.cpp
+++ b/src/Tensor/CachedAllocator.cpp
@@ -271,6 +271,8 @@ class CachedAllocatorImpl : public Allocator {
     }
   }
 
+  bool owns(void* ptr) const { return activeBlocks.find(ptr) != activeBlocks.end(); }
+
   ~CachedAllocatorImpl() override {
     releaseCachedBlocks();
     ASSERT(activeBlocks.empty());
@@ -290,4 +292,12 @@ class CachedAllocatorImpl : public Allocator {
 CachedAllocator::CachedAllocator(std::unique_ptr<Allocator> base)
     : base_(std::move(base)), impl_(std::make_unique<CachedAllocatorImpl>(base_.get())) {}
 
+void CachedAllocator::deallocate(void* ptr) {
+  if (static_cast<CachedAllocatorImpl*>(impl_.get())->owns(ptr)) {
+    impl_->deallocate(ptr);
+  } else {
+    base_->deallocate(ptr);
+  }
+}
+
 }  // namespace tinytorch
diff --git a/src/Tensor/CachedAllocator.h b/src/Tensor/CachedAllocator.h
index 63bf375..b25f4b2 100644
--- a/src/Tensor/CachedAllocator.h
+++ b/src/Tensor/CachedAllocator.h
@@ -23,13 +23,8 @@ class CachedAllocator : public Allocator {
     return impl_->allocate(nbytes);
   }
 
-  void deallocate(void* ptr) override {
-    if (!cacheEnabled_) {
-      base_->deallocate(ptr);
-      return;
-    }
-    impl_->deallocate(ptr);
-  }
+  // A block goes back to where it came from, whether or not caching was switched since.
+  void deallocate(void* ptr) override;
 
  private:
   static bool cacheEnabled_;
-- 
2.43.0


From 67ae850cb35444779cd3ca8d3b0e7980f12e03c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:35 +0000
Subject: [PATCH 43/77] fix: the deleter of a moved storage referred to the
 storage it was moved from

---
 src/Tensor/Storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Tensor/Storage.cpp b/src/Tensor/Storage.cpp
index 7fba16f..d658617 100644
--- a/src/Tensor/Storage.cpp
+++ b/src/Tensor/Storage.cpp
@@ -22,7 +22,7 @@ Storage::Storage(int64_t nbytes, Device device, Allocator* allocator)
       allocator_(allocator ? allocator : getAllocator(Options(device))),
       data_(nullptr, [](void*) {}) {
   void* ptr = allocator_->allocate(nbytes_);
-  data_ = std::unique_ptr<void, std::function<void(void*)>>(ptr, [&](void* p) { allocator_->deallocate(p); });
+  data_ = std::unique_ptr<void, std::function<void(void*)>>(ptr, [allocator = allocator_](void* p) { allocator->deallocate(p); });
 }
 
 std::shared_ptr<Storage> Storage::clone() const {
-- 
2.43.0


From 8cbde0c2ac2d1f60a279c75861c43fc0607724d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:08 +0000
Subject: [PATCH 44/77] fix: saving reported success when the file could not be
 written

---
 src/Serializer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 39dfa65..e85ced4 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -74,6 +74,10 @@ bool Serializer::save(nn::Module& module, const std::string& path) {
   }
 
   ofs.close();
+  if (!ofs) {
+    LOGE("Error write file: %s", path.c_str());
+    return false;
+  }
   return true;
 }
 
-- 
2.43.0


From 1df83a8c1cde1c66bacc31110ed17c540548e93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 45/77] fix: loading a model changed tensors that share storage
 with its parameters

---
 src/Serializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index e85ced4..3e2047a 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -177,7 +177,8 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
       continue;
     }
 
-    // copy data
+    // copy data, not into other tensors sharing the storage
+    tensor->copyOnWrite();
     const void* tensorDataPtr = dataPtr + header->dataOffset;
     Storage::copyOnDevice(tensor->dataPtr<>(), tensor->device(), tensorDataPtr, Device::cpu(),
                           static_cast<int64_t>(header->dataSize));
-- 
2.43.0


From 4f18544caedc2b15a5df35fbecb22ecf9a69ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:40 +0000
Subject: [PATCH 46/77] fix: damaged model files were read beyond their end

---
 src/Serializer.cpp | 69 ++++++++++++++++++++++++++++++----------------
 1 file changed, 45 insertions(+), 24 deletions(-)

diff --git a/src/Serializer.cpp b/src/Serializer.cpp
index 3e2047a..3e5d2ed 100644
--- a/src/Serializer.cpp
+++ b/src/Serializer.cpp
@@ -6,6 +6,7 @@
 
 #include "Serializer.h"
 
+#include <cstring>
 #include <fstream>
 #include <vector>
 
@@ -91,27 +92,39 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
   const char* dataPtr = static_cast<const char*>(mappingResult.dataPtr);
   size_t offset = 0;
 
+  // every length in the file is checked against the bytes that are left
+  auto remaining = [&]() { return mappingResult.fileSize - offset; };
+  auto read = [&](void* dst, size_t size) {
+    if (size > remaining()) {
+      return false;
+    }
+    std::memcpy(dst, dataPtr + offset, size);
+    offset += size;
+    return true;
+  };
+
   // read header
-  uint64_t magic = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(magic);
+  uint64_t magic = 0;
+  uint64_t version = 0;
+  uint64_t tensorCount = 0;
 
-  if (magic != MAGIC_NUMBER) {
+  if (!read(&magic, sizeof(magic)) || magic != MAGIC_NUMBER) {
     LOGE("Invalid magic number in file: %s", path.c_str());
     MMapUtils::unmapFile(mappingResult);
     return false;
   }
 
-  uint64_t version = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(version);
-
-  if (version != VERSION) {
-    LOGE("Unsupported version %u in file: %s", version, path.c_str());
+  if (!read(&version, sizeof(version)) || version != VERSION) {
+    LOGE("Unsupported version %llu in file: %s", static_cast<unsigned long long>(version), path.c_str());
     MMapUtils::unmapFile(mappingResult);
     return false;
   }
 
-  uint64_t tensorCount = *reinterpret_cast<const uint64_t*>(dataPtr + offset);
-  offset += sizeof(tensorCount);
+  if (!read(&tensorCount, sizeof(tensorCount))) {
+    LOGE("Truncated file: %s", path.c_str());
+    MMapUtils::unmapFile(mappingResult);
+    return false;
+  }
 
   ankerl::unordered_dense::map<std::string, TensorPtr> name2tensor;
   for (const auto& [name, tensor] : module.namedStates()) {
@@ -120,20 +133,26 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
 
   bool success = true;
   ankerl::unordered_dense::set<std::string> fileKeys;
+  std::vector<std::pair<TensorPtr, uint64_t>> entries;  // tensors to load, and where their data is
   // read tensors
   for (uint64_t i = 0; i < tensorCount; i++) {
-    const auto* header = reinterpret_cast<const TensorHeader*>(dataPtr + offset);
-    offset += sizeof(TensorHeader);
+    TensorHeader header{};
+    if (!read(&header, sizeof(header)) || header.nameLength > remaining() ||
+        header.ndim > (remaining() - header.nameLength) / sizeof(int64_t)) {
+      LOGE("Truncated file: %s", path.c_str());
+      MMapUtils::unmapFile(mappingResult);
+      return false;
+    }
 
-    std::string name(dataPtr + offset, header->nameLength);
-    offset += header->nameLength;
+    std::string name(dataPtr + offset, header.nameLength);
+    offset += header.nameLength;
     fileKeys.insert(name);
 
     SizeVector shape;
-    for (uint64_t j = 0; j < header->ndim; j++) {
-      int64_t dim = *reinterpret_cast<const int64_t*>(dataPtr + offset);
+    for (uint64_t j = 0; j < header.ndim; j++) {
+      int64_t dim = 0;
+      read(&dim, sizeof(dim));
       shape.pushBack(dim);
-      offset += sizeof(int64_t);
     }
 
     auto iter = name2tensor.find(name);
@@ -155,8 +174,7 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
     }
 
     // check dtype
-    auto dtype = static_cast<DType>(header->dtype);
-    if (dtype != tensor->dtype()) {
+    if (header.dtype != static_cast<uint64_t>(tensor->dtype())) {
       LOGE("dtype not equal for tensor: %s", name.c_str());
       success = false;
       continue;
@@ -164,24 +182,27 @@ bool Serializer::load(nn::Module& module, const std::string& path, bool strict)
 
     // check dataSize
     size_t expectedSize = tensor->numel() * dtypeSize(tensor->dtype());
-    if (header->dataSize != expectedSize) {
+    if (header.dataSize != expectedSize) {
       LOGE("size not equal for tensor: %s", name.c_str());
       success = false;
       continue;
     }
 
     // check dataOffset
-    if (header->dataOffset + header->dataSize > mappingResult.fileSize) {
+    if (header.dataSize > mappingResult.fileSize || header.dataOffset > mappingResult.fileSize - header.dataSize) {
       LOGE("Tensor data out of file range: %s", name.c_str());
       success = false;
       continue;
     }
 
+    entries.emplace_back(tensor, header.dataOffset);
+  }
+
+  for (const auto& [tensor, dataOffset] : entries) {
     // copy data, not into other tensors sharing the storage
     tensor->copyOnWrite();
-    const void* tensorDataPtr = dataPtr + header->dataOffset;
-    Storage::copyOnDevice(tensor->dataPtr<>(), tensor->device(), tensorDataPtr, Device::cpu(),
-                          static_cast<int64_t>(header->dataSize));
+    Storage::copyOnDevice(tensor->dataPtr<>(), tensor->device(), dataPtr + dataOffset, Device::cpu(),
+                          tensor->numel() * static_cast<int64_t>(dtypeSize(tensor->dtype())));
   }
 
   // check missing keys
-- 
2.43.0


From 62c266b15ed7077940880e139bd295990dc56253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:03 +0000
Subject: [PATCH 47/77] fix: count the batches of a data loader in integers

---
 src/Data/DataLoader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Data/DataLoader.h b/src/Data/DataLoader.h
index f0b7be8..f946d47 100644
--- a/src/Data/DataLoader.h
+++ b/src/Data/DataLoader.h
@@ -31,7 +31,7 @@ class DataLoader {
     if (dropLast) {
       batchCnt_ = indices_.size() / batchSize;
     } else {
-      batchCnt_ = std::ceil(static_cast<float>(indices_.size()) * 1.0f / static_cast<float>(batchSize));
+      batchCnt_ = indices_.size() / batchSize + (indices_.size() % batchSize != 0 ? 1 : 0);
     }
   }
 
-- 
2.43.0


From 741a15c8c3e1a77a1d1cedaf2fe859a6521a8b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:48 +0000
Subject: [PATCH 48/77] fix: draw random numbers from the shared generator, not
 from a copy

---
 src/Operation/OpFillingCpu.h  | 6 +++---
 src/Operation/OpNNLayerCpu.h  | 2 +-
 src/Operation/OpSamplingCpu.h | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Operation/OpFillingCpu.h b/src/Operation/OpFillingCpu.h
index f64bc75..44d7941 100644
--- a/src/Operation/OpFillingCpu.h
+++ b/src/Operation/OpFillingCpu.h
@@ -79,7 +79,7 @@ template <typename T>
 void fillOpRandUniformCpuImpl(Tensor& self, float min, float max) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution distribution(min, max);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -90,7 +90,7 @@ template <typename T>
 void fillOpRandNormalCpuImpl(Tensor& self, float mean, float stddev) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::normal_distribution distribution(mean, stddev);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
@@ -101,7 +101,7 @@ template <typename T>
 void fillOpRandBernoulliCpuImpl(Tensor& self, float p) {
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     selfPtr[i] = static_cast<T>(distribution(generator));
diff --git a/src/Operation/OpNNLayerCpu.h b/src/Operation/OpNNLayerCpu.h
index b125c1d..538525c 100644
--- a/src/Operation/OpNNLayerCpu.h
+++ b/src/Operation/OpNNLayerCpu.h
@@ -162,7 +162,7 @@ Tensor dropoutOpCpuImpl(const Tensor& self, float p) {
   Tensor out(self.shape(), self.options().noGrad());
   const auto* selfPtr = self.dataPtr<T>();
   auto* outPtr = out.dataPtr<T>();
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::bernoulli_distribution distribution(p);
   for (int64_t i = 0; i < self.numel(); i++) {
     outPtr[i] = distribution(generator) ? static_cast<T>(static_cast<float>(selfPtr[i]) / p) : T(0);
diff --git a/src/Operation/OpSamplingCpu.h b/src/Operation/OpSamplingCpu.h
index 1407625..26597e2 100644
--- a/src/Operation/OpSamplingCpu.h
+++ b/src/Operation/OpSamplingCpu.h
@@ -88,7 +88,7 @@ Tensor multinomialOpCpuImpl(const Tensor& self, int64_t numSamples, bool replace
   const T* selfPtr = self.dataPtr<T>();
   auto* retPtr = ret.dataPtr<int64_t>();
 
-  auto generator = RandomGeneratorCPU::getGenerator();
+  auto& generator = RandomGeneratorCPU::getGenerator();
   std::uniform_real_distribution<float> dist(0.f, 1.f);
 
   for (int64_t b = 0; b < batch; b++) {
-- 
2.43.0


From a57a52a30fdb60b8248a0f6bb5615744402c3b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:01 +0000
Subject: [PATCH 49/77] fix: accumulate multinomial weights in double precision

---
 src/Operation/OpSamplingCpu.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Operation/OpSamplingCpu.h b/src/Operation/OpSamplingCpu.h
index 26597e2..a2dbed0 100644
--- a/src/Operation/OpSamplingCpu.h
+++ b/src/Operation/OpSamplingCpu.h
@@ -89,10 +89,10 @@ Tensor multinomialOpCpuImpl(const Tensor& self, int64_t numSamples, bool replace
   auto* retPtr = ret.dataPtr<int64_t>();
 
   auto& generator = RandomGeneratorCPU::getGenerator();
-  std::uniform_real_distribution<float> dist(0.f, 1.f);
+  std::uniform_real_distribution<double> dist(0.0, 1.0);
 
   for (int64_t b = 0; b < batch; b++) {
-    std::vector<float> prob(n);
+    std::vector<double> prob(n);
     if (self.dim() == 2) {
       for (int64_t i = 0; i < n; i++) {
         prob[i] = static_cast<float>(selfPtr[b * n + i]);
@@ -104,12 +104,12 @@ Tensor multinomialOpCpuImpl(const Tensor& self, int64_t numSamples, bool replace
     }
 
     for (int64_t s = 0; s < numSamples; s++) {
-      std::vector<float> cdf(n);
+      std::vector<double> cdf(n);
       std::partial_sum(prob.begin(), prob.end(), cdf.begin());
-      float total = cdf.back();
+      double total = cdf.back();
       ASSERT(total > 0);
 
-      float r = dist(generator) * total;
+      double r = dist(generator) * total;
       auto it = std::upper_bound(cdf.begin(), cdf.end(), r);
       int64_t idx = std::distance(cdf.begin(), it);
 
-- 
2.43.0


From f002eee7c59f2d91a21dfd6aa93cda1b37c135f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:46 +0000
Subject: [PATCH 50/77] fix: initialise the bias of a convolution without
 inputs

---
 src/Module/Basic.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/Module/Basic.cpp b/src/Module/Basic.cpp
index 9817811..aa0b57d 100644
--- a/src/Module/Basic.cpp
+++ b/src/Module/Basic.cpp
@@ -50,10 +50,8 @@ void Conv2D::resetParameters() {
   Initializer::kaimingUniform(weight_, std::sqrt(5.f));
   if (useBias_) {
     auto fanIn = Initializer::calculateFan(weight_).first;
-    if (fanIn != 0) {
-      const auto bound = 1.f / std::sqrt(static_cast<float>(fanIn));
-      Initializer::uniform(bias_, -bound, bound);
-    }
+    const auto bound = fanIn > 0 ? 1.f / std::sqrt(static_cast<float>(fanIn)) : 0;
+    Initializer::uniform(bias_, -bound, bound);
   }
 }
 
-- 
2.43.0


From 57ff3734fed1b0f59af6a24f81517b947c001e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 51/77] fix: skip frozen parameters when clearing gradients and
 stepping

---
 src/Module/Module.h |  4 +++-
 src/Optimizer.cpp   | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Module/Module.h b/src/Module/Module.h
index cf436f9..e5e7157 100644
--- a/src/Module/Module.h
+++ b/src/Module/Module.h
@@ -85,7 +85,9 @@ class Module {
   virtual void zeroGrad() {
     auto allParameters = namedParameters();
     for (auto &[name, param] : allParameters) {
-      param->zeroGrad();
+      if (param->requiresGrad()) {
+        param->zeroGrad();
+      }
     }
   }
 
diff --git a/src/Optimizer.cpp b/src/Optimizer.cpp
index 0164d2e..b39fa5f 100644
--- a/src/Optimizer.cpp
+++ b/src/Optimizer.cpp
@@ -21,11 +21,16 @@ Optimizer::Optimizer(std::vector<TensorPtr> &&parameters, float lr, float weight
 
 void Optimizer::zeroGrad() const {
   for (auto &param : parameters_) {
-    param->zeroGrad();
+    if (param->requiresGrad()) {
+      param->zeroGrad();
+    }
   }
 }
 
 Tensor Optimizer::getDecayedGrad(TensorPtr param) const {
+  if (!param->requiresGrad()) {
+    return {};
+  }
   auto ret = param->grad();
   if (!ret.defined()) {
     return ret;
@@ -215,6 +220,9 @@ AdamW::AdamW(std::vector<TensorPtr> &&parameters, float lr, const std::pair<floa
     : Adam(std::move(parameters), lr, betas, eps, weightDecay, amsGrad) {}
 
 Tensor AdamW::getDecayedGrad(TensorPtr param) const {
+  if (!param->requiresGrad()) {
+    return {};
+  }
   if (param->grad().defined()) {
     *param *= (1.f - lr_ * weightDecay_);
   }
-- 
2.43.0


From 18684e9c6d1a6e0bcf6956b10e8945625c7c0702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:18 +0000
Subject: [PATCH 52/77] fix: keep the data type of a converted RoPE table when
 it is initialised again

---
 src/Module/Basic.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Module/Basic.cpp b/src/Module/Basic.cpp
index aa0b57d..135f725 100644
--- a/src/Module/Basic.cpp
+++ b/src/Module/Basic.cpp
@@ -102,7 +102,12 @@ Tensor RoPE::forward(const Tensor &input) { return function::ropeApply(input, ro
 
 Tensor RoPE::forward(const Tensor &input, int64_t offset) { return function::ropeApply(input, rope_, offset); }
 
-void RoPE::resetParameters() { rope_ = op::ropeInit(headDim_, contextLength_, thetaBase_, scaling_, options_); }
+void RoPE::resetParameters() {
+  if (rope_.defined()) {
+    options_.dtype(rope_.dtype());
+  }
+  rope_ = op::ropeInit(headDim_, contextLength_, thetaBase_, scaling_, options_);
+}
 
 std::vector<std::pair<std::string, TensorPtr>> RoPE::namedStates_() { return {{"rope", &rope_}}; }
 
-- 
2.43.0


From 8b4eeabd4a546447096c6869650be1db907fcd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:27 +0000
Subject: [PATCH 53/77] fix: let a small vector take one of its own elements
 while it grows or shifts

---
 src/Utils/VectorUtils.h | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/Utils/VectorUtils.h b/src/Utils/VectorUtils.h
index c02051c..625b74f 100644
--- a/src/Utils/VectorUtils.h
+++ b/src/Utils/VectorUtils.h
@@ -122,9 +122,13 @@ class SmallVector {
   template <typename... Args>
   void pushBack(Args&&... args) {
     if (size_ == capacity_) {
+      // the arguments may refer to an element
+      T value(std::forward<Args>(args)...);
       grow();
+      new (data_ + size_) T(std::move(value));
+    } else {
+      new (data_ + size_) T(std::forward<Args>(args)...);
     }
-    new (data_ + size_) T(std::forward<Args>(args)...);
     size_++;
   }
 
@@ -152,8 +156,12 @@ class SmallVector {
   void resize(size_type size, const T& value) {
     if (size < size_) {
       std::destroy(data_ + size, data_ + size_);
-    } else if (size > size_) {
+    } else if (size > capacity_) {
+      // the value may be an element
+      T copy(value);
       reserve(size);
+      std::uninitialized_fill_n(data_ + size_, size - size_, copy);
+    } else if (size > size_) {
       std::uninitialized_fill_n(data_ + size_, size - size_, value);
     }
     size_ = size;
@@ -161,6 +169,8 @@ class SmallVector {
 
   T* insert(T* pos, const T& value) {
     size_type idx = pos - data_;
+    // the value may be an element
+    T copy(value);
     if (size_ == capacity_) {
       grow();
     }
@@ -169,9 +179,9 @@ class SmallVector {
       for (size_type i = size_ - 1; i > idx; i--) {
         data_[i] = std::move(data_[i - 1]);
       }
-      data_[idx] = value;
+      data_[idx] = std::move(copy);
     } else {
-      new (data_ + size_) T(value);
+      new (data_ + size_) T(std::move(copy));
     }
     size_++;
     return data_ + idx;
-- 
2.43.0


From 236335719f6917af5122a905740c6647648b8153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 54/77] fix: create tensors from empty nested lists

---
 src/Tensor/Tensor.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Tensor/Tensor.h b/src/Tensor/Tensor.h
index b55e568..d8e916f 100644
--- a/src/Tensor/Tensor.h
+++ b/src/Tensor/Tensor.h
@@ -305,7 +305,8 @@ Tensor::Tensor(const Array1d<T>& values) : Tensor(values, options::dtype(TypeToD
 
 template <typename T>
 Tensor::Tensor(const Array2d<T>& values, Options options) {
-  SizeVector shape = {static_cast<int64_t>(values.size()), static_cast<int64_t>(values[0].size())};
+  auto dim1 = values.empty() ? 0 : values[0].size();
+  SizeVector shape = {static_cast<int64_t>(values.size()), static_cast<int64_t>(dim1)};
   impl_ = std::make_shared<TensorImpl>(flatten2d(values), shape, options);
   initAutogradMeta();
 }
@@ -315,8 +316,9 @@ Tensor::Tensor(const Array2d<T>& values) : Tensor(values, options::dtype(TypeToD
 
 template <typename T>
 Tensor::Tensor(const Array3d<T>& values, Options options) {
-  SizeVector shape = {static_cast<int64_t>(values.size()), static_cast<int64_t>(values[0].size()),
-                      static_cast<int64_t>(values[0][0].size())};
+  auto dim1 = values.empty() ? 0 : values[0].size();
+  auto dim2 = dim1 == 0 ? 0 : values[0][0].size();
+  SizeVector shape = {static_cast<int64_t>(values.size()), static_cast<int64_t>(dim1), static_cast<int64_t>(dim2)};
   impl_ = std::make_shared<TensorImpl>(flatten3d(values), shape, options);
   initAutogradMeta();
 }
-- 
2.43.0


From 9f97e992d137d4f401d6f78c5436161f45a2865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 55/77] fix: count the elements of a range exactly

---
 src/Tensor/Tensor.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Tensor/Tensor.h b/src/Tensor/Tensor.h
index d8e916f..48d8748 100644
--- a/src/Tensor/Tensor.h
+++ b/src/Tensor/Tensor.h
@@ -329,7 +329,15 @@ Tensor::Tensor(const Array3d<T>& values) : Tensor(values, options::dtype(TypeToD
 template <typename T>
 Tensor Tensor::arange(T start, T stop, T step, Options options) {
   options.dtype(TypeToDType_v<T>);
-  auto steps = static_cast<int64_t>(std::ceil((stop - start) / step));
+  int64_t steps = 0;
+  if constexpr (std::is_integral_v<T>) {
+    auto range = static_cast<int64_t>(stop) - static_cast<int64_t>(start);
+    steps = range / static_cast<int64_t>(step) + (range % static_cast<int64_t>(step) != 0 ? 1 : 0);
+    steps = (range > 0) == (step > 0) ? steps : 0;
+  } else {
+    auto range = static_cast<double>(static_cast<float>(stop)) - static_cast<double>(static_cast<float>(start));
+    steps = std::max<int64_t>(static_cast<int64_t>(std::ceil(range / static_cast<double>(static_cast<float>(step)))), 0);
+  }
   Tensor ret({steps}, options);
   ret.fillLinSpace_(start, step, steps);
   return ret;
-- 
2.43.0


From 5ebb0b4aec1f66916fae3e79ddb45139ddc949a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:11 +0000
Subject: [PATCH 56/77] fix: evenly spaced integers and 16-bit floats reach
 their end point

---
 src/Operation/OpFillingCpu.h |  8 +++++---
 src/Tensor/Tensor.h          | 22 ++++++++++++++++------
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/Operation/OpFillingCpu.h b/src/Operation/OpFillingCpu.h
index 44d7941..6eec78b 100644
--- a/src/Operation/OpFillingCpu.h
+++ b/src/Operation/OpFillingCpu.h
@@ -68,10 +68,12 @@ void fillOpLinSpaceCpuImpl(Tensor& self, const Scalar& start, const Scalar& step
   ASSERT(self.numel() == steps);
   self.copyOnWrite();
   auto* selfPtr = self.dataPtr<T>();
-  T startVal = start.to<T>();
-  T stepVal = step.to<T>();
+  // 16-bit floats can not count the steps
+  using C = std::conditional_t<std::is_integral_v<T>, T, float>;
+  C startVal = start.to<C>();
+  C stepVal = step.to<C>();
   for (int64_t i = 0; i < steps; i++) {
-    selfPtr[i] = startVal + static_cast<T>(i) * stepVal;
+    selfPtr[i] = static_cast<T>(startVal + static_cast<C>(i) * stepVal);
   }
 }
 
diff --git a/src/Tensor/Tensor.h b/src/Tensor/Tensor.h
index 48d8748..31d19be 100644
--- a/src/Tensor/Tensor.h
+++ b/src/Tensor/Tensor.h
@@ -347,13 +347,23 @@ template <typename T>
 Tensor Tensor::linspace(T start, T end, int64_t steps, Options options) {
   ASSERT(steps > 0);
   options.dtype(TypeToDType_v<T>);
-  T step = 0;
-  if (steps > 1) {
-    step = (end - start) / static_cast<T>(steps - 1);
+  if constexpr (std::is_integral_v<T>) {
+    // the distance of two points may not be an integer
+    std::vector<T> values(steps, start);
+    for (int64_t i = 1; i < steps; i++) {
+      auto range = static_cast<int64_t>(end) - static_cast<int64_t>(start);
+      values[i] = static_cast<T>(static_cast<int64_t>(start) + range * i / (steps - 1));
+    }
+    return {values, {steps}, options};
+  } else {
+    float step = 0.f;
+    if (steps > 1) {
+      step = (static_cast<float>(end) - static_cast<float>(start)) / static_cast<float>(steps - 1);
+    }
+    Tensor ret({steps}, options);
+    ret.fillLinSpace_(start, step, steps);
+    return ret;
   }
-  Tensor ret({steps}, options);
-  ret.fillLinSpace_(start, step, steps);
-  return ret;
 }
 
 template <typename T>
-- 
2.43.0


From 367f56b296eea9c63d4234d8b2f91cf76bca210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:16 +0000
Subject: [PATCH 57/77] fix: refuse MNIST files whose header does not match
 their content

---
 src/Data/DatasetMNIST.cpp | 81 ++++++++++++++++++++++++---------------
 1 file changed, 51 insertions(+), 30 deletions(-)

diff --git a/src/Data/DatasetMNIST.cpp b/src/Data/DatasetMNIST.cpp
index 5c814d0..f6896a7 100644
--- a/src/Data/DatasetMNIST.cpp
+++ b/src/Data/DatasetMNIST.cpp
@@ -6,6 +6,8 @@
 
 #include "DatasetMNIST.h"
 
+#include <algorithm>
+#include <cstdint>
 #include <fstream>
 #include <memory>
 
@@ -44,59 +46,78 @@ int32_t DatasetMNIST::toInt32(const char* p) {
 }
 
 void DatasetMNIST::loadImages(const std::string& path) {
-  std::ifstream ifs(path.c_str(), std::ios::in | std::ios::binary);
+  std::ifstream ifs(path.c_str(), std::ios::in | std::ios::binary | std::ios::ate);
   if (!ifs.is_open()) {
     LOGE("failed to load images from %s", path.c_str());
     return;
   }
-  char p[4];
+  const auto fileSize = static_cast<int64_t>(ifs.tellg());
+  ifs.seekg(0);
 
-  ifs.read(p, 4);
-  auto magicNumber = toInt32(p);
-  ASSERT(magicNumber == 0x803);
-
-  ifs.read(p, 4);
-  auto size = toInt32(p);
+  char p[16];
+  if (!ifs.read(p, 16) || toInt32(p) != 0x803) {
+    LOGE("not an image file: %s", path.c_str());
+    return;
+  }
+  const int64_t size = toInt32(p + 4);
+  const int64_t height = toInt32(p + 8);
+  const int64_t width = toInt32(p + 12);
+
+  // the header has to describe what the file holds
+  const int64_t dataSize = fileSize - 16;
+  if (size < 0 || height <= 0 || width <= 0 || height > INT32_MAX / width ||
+      size > dataSize / (height * width)) {
+    LOGE("invalid image file: %s", path.c_str());
+    return;
+  }
+  height_ = static_cast<int32_t>(height);
+  width_ = static_cast<int32_t>(width);
   images_.resize(size);
 
-  ifs.read(p, 4);
-  height_ = toInt32(p);
-
-  ifs.read(p, 4);
-  width_ = toInt32(p);
-
-  char* tmp = new char[height_ * width_];
-  for (int32_t i = 0; i < size; ++i) {
-    images_[i].resize(height_ * width_);
-    ifs.read(tmp, height_ * width_);
+  std::vector<char> tmp(size > 0 ? height * width : 0);
+  for (int64_t i = 0; i < size; ++i) {
+    if (!ifs.read(tmp.data(), height * width)) {
+      LOGE("failed to read image %lld from %s", static_cast<long long>(i), path.c_str());
+      images_.resize(i);
+      return;
+    }
+    images_[i].resize(height * width);
     float* dataPtr = &images_[i][0];
-    for (int32_t j = 0; j < height_ * width_; ++j) {
+    for (int64_t j = 0; j < height * width; ++j) {
       auto d = static_cast<uint8_t>(tmp[j]);
       dataPtr[j] = static_cast<float>(d) / 255.0f;
     }
   }
-  delete[] tmp;
 
   ifs.close();
 }
 
 void DatasetMNIST::loadLabels(const std::string& path) {
-  std::ifstream ifs(path.c_str(), std::ios::in | std::ios::binary);
+  std::ifstream ifs(path.c_str(), std::ios::in | std::ios::binary | std::ios::ate);
   if (!ifs.is_open()) {
     LOGE("failed to load labels from %s", path.c_str());
     return;
   }
-  char p[4];
-
-  ifs.read(p, 4);
-  auto magicNumber = toInt32(p);
-  ASSERT(magicNumber == 0x801);
+  const auto fileSize = static_cast<int64_t>(ifs.tellg());
+  ifs.seekg(0);
 
-  ifs.read(p, 4);
-  auto size = toInt32(p);
+  char p[8];
+  if (!ifs.read(p, 8) || toInt32(p) != 0x801) {
+    LOGE("not a label file: %s", path.c_str());
+    return;
+  }
+  const int64_t size = toInt32(p + 4);
+  if (size < 0 || size > fileSize - 8) {
+    LOGE("invalid label file: %s", path.c_str());
+    return;
+  }
   labels_.resize(size);
-  for (int32_t i = 0; i < size; ++i) {
-    ifs.read(p, 1);
+  for (int64_t i = 0; i < size; ++i) {
+    if (!ifs.read(p, 1)) {
+      LOGE("failed to read label %lld from %s", static_cast<long long>(i), path.c_str());
+      labels_.resize(i);
+      return;
+    }
     labels_[i] = static_cast<unsigned char>(p[0]);
   }
 
-- 
2.43.0


From ee32c8fd09eb0cfddbef421ef2987b55c5409f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 58/77] fix: unregister the gradient hooks of a destroyed
 reducer

---
 src/Distributed/Reducer.cpp | 12 +++++++++++-
 src/Distributed/Reducer.h   |  7 ++++++-
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/Reducer.cpp b/src/Distributed/Reducer.cpp
index 367a69f..1148005 100644
--- a/src/Distributed/Reducer.cpp
+++ b/src/Distributed/Reducer.cpp
@@ -28,6 +28,15 @@ Reducer::Reducer(std::vector<TensorPtr> parameters, std::shared_ptr<DistributedP
   registerHooks();
 }
 
+Reducer::~Reducer() {
+  // the parameters may outlive the reducer
+  for (auto& ctx : hookCtxs_) {
+    if (ctx->hookId >= 0) {
+      ctx->param.unregisterHook(ctx->hookId);
+    }
+  }
+}
+
 void Reducer::buildBuckets() {
   if (parameters_.empty()) {
     return;
@@ -91,7 +100,8 @@ void Reducer::registerHooks() {
       ctx->self = this;
       ctx->bIdx = bIdx;
       ctx->pIdx = pIdx;
-      param->registerHook(&parameterHookFn, ctx.get());
+      ctx->param = *param;
+      ctx->hookId = param->registerHook(&parameterHookFn, ctx.get());
       hookCtxs_.push_back(std::move(ctx));
     }
   }
diff --git a/src/Distributed/Reducer.h b/src/Distributed/Reducer.h
index 7d27726..3e1c260 100644
--- a/src/Distributed/Reducer.h
+++ b/src/Distributed/Reducer.h
@@ -19,12 +19,17 @@ class Reducer {
     Reducer* self;
     int64_t bIdx;
     int64_t pIdx;
+    Tensor param;
+    int64_t hookId;
   };
 
   Reducer(std::vector<TensorPtr> parameters, std::shared_ptr<DistributedProcessGroup> processGroup,
           int64_t bucketBytesCap = kDefaultBucketBytesCap);
 
-  ~Reducer() = default;
+  ~Reducer();
+
+  Reducer(const Reducer&) = delete;
+  Reducer& operator=(const Reducer&) = delete;
 
   void prepareForBackward();
   void broadcastParameters(int rootRank = 0) const;
-- 
2.43.0


From 083e9d02f08384ee352fce11b21a49d19c0e4098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:07 +0000
Subject: [PATCH 59/77] fix: leave parameters without elements out of the
 gradient buckets

---
 src/Distributed/Reducer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Distributed/Reducer.cpp b/src/Distributed/Reducer.cpp
index 1148005..54f8991 100644
--- a/src/Distributed/Reducer.cpp
+++ b/src/Distributed/Reducer.cpp
@@ -53,6 +53,10 @@ void Reducer::buildBuckets() {
     ASSERT(param->device() == device);
     ASSERT(param->dtype() == dtype);
 
+    if (param->numel() == 0) {
+      continue;  // nothing to broadcast or reduce
+    }
+
     int64_t paramBytes = param->nbytes();
     if (currentBytes + paramBytes > bucketBytesCap_ && !currentParams.empty()) {
       buckets_.push_back(createBucket(currentParams, device, dtype));
-- 
2.43.0


From 310fb86a50718334319a9fa9624494b25145349a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:31 +0000
Subject: [PATCH 60/77] fix: reduce the gradients of a bucket that holds frozen
 parameters

---
 src/Distributed/Reducer.cpp | 18 ++++++++++++++++--
 src/Distributed/Reducer.h   |  1 +
 2 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/Reducer.cpp b/src/Distributed/Reducer.cpp
index 54f8991..6fb7292 100644
--- a/src/Distributed/Reducer.cpp
+++ b/src/Distributed/Reducer.cpp
@@ -99,6 +99,9 @@ void Reducer::registerHooks() {
     for (int64_t pIdx = 0; pIdx < static_cast<int64_t>(bucket.params.size()); pIdx++) {
       auto& param = bucket.params[pIdx];
       ASSERT(param != nullptr);
+      if (!param->requiresGrad()) {
+        continue;
+      }
 
       auto ctx = std::make_unique<ParameterHookCtx>();
       ctx->self = this;
@@ -107,6 +110,7 @@ void Reducer::registerHooks() {
       ctx->param = *param;
       ctx->hookId = param->registerHook(&parameterHookFn, ctx.get());
       hookCtxs_.push_back(std::move(ctx));
+      bucket.hookCount++;
     }
   }
 }
@@ -124,7 +128,7 @@ void Reducer::onGradReady(int64_t bucketIdx, int64_t paramIdx, const Tensor& gra
   bucket.readyCount++;
 
   ASSERT(!bucket.reduceStarted);
-  if (bucket.readyCount == static_cast<int64_t>(bucket.params.size())) {
+  if (bucket.readyCount == bucket.hookCount) {
     bucket.reduceStarted = true;
     reduceBucket(bucketIdx);
   }
@@ -172,7 +176,11 @@ void Reducer::broadcastParameters(int rootRank) const {
 }
 
 void Reducer::checkAllBucketsReady() {
-  if (bucketReadyCnt_ < static_cast<int64_t>(buckets_.size())) {
+  int64_t bucketCnt = 0;
+  for (auto& bucket : buckets_) {
+    bucketCnt += bucket.hookCount > 0 ? 1 : 0;
+  }
+  if (bucketReadyCnt_ < bucketCnt) {
     return;
   }
 
@@ -224,6 +232,9 @@ void Reducer::copyGradsToFlattenedBuffer(int64_t bucketIdx) const {
   for (int64_t i = 0; i < static_cast<int64_t>(bucket.params.size()); i++) {
     ASSERT(bucket.params[i] != nullptr);
     ASSERT(bucket.params[i]->defined());
+    if (!bucket.params[i]->requiresGrad()) {
+      continue;
+    }
     auto& grad = bucket.params[i]->grad();
     ASSERT(grad.defined());
     bucket.flatBuffer.narrow(0, bucket.paramOffsets[i], bucket.paramSizes[i]).copy_(grad.flatten());
@@ -237,6 +248,9 @@ void Reducer::copyFlattenedBufferToGrads(int64_t bucketIdx) const {
   for (int64_t i = 0; i < static_cast<int64_t>(bucket.params.size()); i++) {
     ASSERT(bucket.params[i] != nullptr);
     ASSERT(bucket.params[i]->defined());
+    if (!bucket.params[i]->requiresGrad()) {
+      continue;
+    }
     auto& grad = bucket.params[i]->grad();
     ASSERT(grad.defined());
     auto slice = bucket.flatBuffer.narrow(0, bucket.paramOffsets[i], bucket.paramSizes[i]);
diff --git a/src/Distributed/Reducer.h b/src/Distributed/Reducer.h
index 3e1c260..bacb4ab 100644
--- a/src/Distributed/Reducer.h
+++ b/src/Distributed/Reducer.h
@@ -45,6 +45,7 @@ class Reducer {
     Tensor flatBuffer;
 
     int64_t totalSize = 0;
+    int64_t hookCount = 0;  // parameters that get a gradient
     int64_t readyCount = 0;
     bool reduceStarted = false;
     std::shared_ptr<Work> work;
-- 
2.43.0


From d98f016d30aab4c37ca1c6afe022b7458acb93f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 61/77] fix: partition any number of items over any number of
 ranks

---
 src/Distributed/DistributedSampler.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/Distributed/DistributedSampler.cpp b/src/Distributed/DistributedSampler.cpp
index 8963521..70cef8f 100644
--- a/src/Distributed/DistributedSampler.cpp
+++ b/src/Distributed/DistributedSampler.cpp
@@ -30,7 +30,7 @@ DistributedSampler::DistributedSampler(size_t datasetSize, std::optional<size_t>
   if (dropLast_) {
     numSamples_ = datasetSize_ / numReplicas_;
   } else {
-    numSamples_ = std::ceil(static_cast<float>(datasetSize_) * 1.0f / static_cast<float>(numReplicas_));
+    numSamples_ = (datasetSize_ + numReplicas_ - 1) / numReplicas_;
   }
   totalSize_ = numSamples_ * numReplicas_;
   generateIndices();
@@ -47,9 +47,10 @@ void DistributedSampler::generateIndices() {
   }
 
   if (!dropLast_) {
-    if (allIndices.size() < totalSize_) {
-      allIndices.insert(allIndices.end(), allIndices.begin(),
-                        allIndices.begin() + static_cast<int64_t>(totalSize_ - allIndices.size()));
+    // pad with indices from the start, over and over if there are fewer items than needed
+    allIndices.resize(totalSize_);
+    for (size_t i = datasetSize_; i < totalSize_; i++) {
+      allIndices[i] = allIndices[i - datasetSize_];
     }
   } else {
     allIndices.resize(totalSize_);
-- 
2.43.0


From 63523ffe86cac9cf093d8544a982a0be0c6ff170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 62/77] fix: run the operations of the file store one at a
 time, under one lock

---
 src/Distributed/FileStore.cpp | 70 +++++++++++++++++++----------------
 src/Distributed/FileStore.h   |  1 +
 2 files changed, 39 insertions(+), 32 deletions(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index 82326d2..b62bafc 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -14,7 +14,9 @@
 #include <unistd.h>
 
 #include <algorithm>
+#include <cerrno>
 #include <iostream>
+#include <memory>
 #include <thread>
 
 #include "Utils/Logger.h"
@@ -24,19 +26,19 @@ namespace tinytorch::distributed {
 class FileLock {
  public:
   explicit FileLock(const std::string& path) {
-    fd_ = open(path.c_str(), O_RDWR | O_CREAT, 0666);
+    fd_ = open(path.c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0666);
     if (fd_ == -1) {
       LOGE("FileStore: Open failed for path: %s", path.c_str());
       return;
     }
 
-    struct flock fl {};
-    fl.l_type = F_WRLCK;
-    fl.l_whence = SEEK_SET;
-    fl.l_start = 0;
-    fl.l_len = 0;
-    if (fcntl(fd_, F_SETLKW, &fl) == -1) {
-      LOGE("FileStore: fcntl lock failed for path: %s", path.c_str());
+    // held by this descriptor: it excludes other threads as well, and closing another descriptor does not drop it
+    int ret;
+    do {
+      ret = flock(fd_, LOCK_EX);
+    } while (ret == -1 && errno == EINTR);
+    if (ret == -1) {
+      LOGE("FileStore: flock failed for path: %s", path.c_str());
       close(fd_);
       fd_ = -1;
     }
@@ -44,12 +46,6 @@ class FileLock {
 
   ~FileLock() {
     if (fd_ != -1) {
-      struct flock fl {};
-      fl.l_type = F_UNLCK;
-      fl.l_whence = SEEK_SET;
-      fl.l_start = 0;
-      fl.l_len = 0;
-      fcntl(fd_, F_SETLK, &fl);
       close(fd_);
     }
   }
@@ -70,9 +66,12 @@ FileStore::FileStore(std::string path) : path_(std::move(path)) {
 
 std::string FileStore::getKeyPath(const std::string& key) const { return path_ + "/" + key; }
 
+// One lock for the whole store, which is never removed.
+std::string FileStore::getLockPath() const { return path_ + "/.lock"; }
+
 void FileStore::set(const std::string& key, const std::vector<uint8_t>& value) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(getLockPath());
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return;
@@ -100,7 +99,21 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
   auto start = std::chrono::steady_clock::now();
   bool hasTimeout = (timeout != kNoTimeout);
 
-  while (!checkKey(key)) {
+  FILE* f = nullptr;
+  std::unique_ptr<FileLock> lock;
+  while (true) {
+    if (checkKey(key)) {
+      lock = std::make_unique<FileLock>(getLockPath());
+      if (!lock->isValid()) {
+        LOGE("FileStore: lock failed for path: %s", path.c_str());
+        return {};
+      }
+      f = fopen(path.c_str(), "rb");
+      if (f) {
+        break;
+      }
+      lock.reset();  // deleted in the meantime
+    }
     if (hasTimeout) {
       auto now = std::chrono::steady_clock::now();
       if (now - start > timeout) {
@@ -111,18 +124,6 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
     std::this_thread::sleep_for(std::chrono::milliseconds(10));
   }
 
-  FileLock lock(path);
-  if (!lock.isValid()) {
-    LOGE("FileStore: lock failed for path: %s", path.c_str());
-    return {};
-  }
-
-  FILE* f = fopen(path.c_str(), "rb");
-  if (!f) {
-    LOGE("FileStore: fopen for reading failed for path: %s", path.c_str());
-    return {};
-  }
-
   using FileCloserFn = int (*)(FILE*);
   std::unique_ptr<FILE, FileCloserFn> fileGuard(f, &fclose);
 
@@ -158,7 +159,7 @@ std::vector<uint8_t> FileStore::get(const std::string& key) {
 
 int64_t FileStore::add(const std::string& key, int64_t value) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(getLockPath());
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return 0;
@@ -194,7 +195,7 @@ int64_t FileStore::add(const std::string& key, int64_t value) {
 
 bool FileStore::deleteKey(const std::string& key) {
   const auto path = getKeyPath(key);
-  FileLock lock(path);
+  FileLock lock(getLockPath());
   if (!lock.isValid()) {
     LOGE("FileStore: lock failed for path: %s", path.c_str());
     return false;
@@ -208,10 +209,15 @@ bool FileStore::checkKey(const std::string& key) const {
 }
 
 bool FileStore::check(const std::vector<std::string>& keys) {
+  FileLock lock(getLockPath());
+  if (!lock.isValid()) {
+    return false;
+  }
   return std::all_of(keys.begin(), keys.end(), [this](const auto& key) { return checkKey(key); });
 }
 
 int64_t FileStore::getNumKeys() {
+  FileLock lock(getLockPath());
   int64_t count = 0;
   DIR* dir = opendir(path_.c_str());
   if (!dir) {
@@ -222,7 +228,7 @@ int64_t FileStore::getNumKeys() {
   dirent* entry;
   while ((entry = readdir(dir)) != nullptr) {
     const std::string name = entry->d_name;
-    if (name != "." && name != "..") {
+    if (name != "." && name != ".." && name != ".lock") {
       count++;
     }
   }
@@ -235,7 +241,7 @@ void FileStore::wait(const std::vector<std::string>& keys) {
   auto start = std::chrono::steady_clock::now();
   while (!check(keys)) {
     auto now = std::chrono::steady_clock::now();
-    if (now - start > timeout_) {
+    if (timeout_ != kNoTimeout && now - start > timeout_) {
       LOGE("FileStore: Wait timeout after %lld ms", timeout_.count());
       return;
     }
diff --git a/src/Distributed/FileStore.h b/src/Distributed/FileStore.h
index f5edd72..221c4e6 100644
--- a/src/Distributed/FileStore.h
+++ b/src/Distributed/FileStore.h
@@ -28,6 +28,7 @@ class FileStore : public Store {
 
  private:
   std::string getKeyPath(const std::string& key) const;
+  std::string getLockPath() const;
   bool checkKey(const std::string& key) const;
 
   std::string path_;
-- 
2.43.0


From cd1189d4dd561ff3c4da136c5182bb53362a6edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:17 +0000
Subject: [PATCH 63/77] fix: keep every key of the file store in a file of its
 own inside the store

---
 src/Distributed/FileStore.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index b62bafc..c233c31 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -64,7 +64,23 @@ FileStore::FileStore(std::string path) : path_(std::move(path)) {
   }
 }
 
-std::string FileStore::getKeyPath(const std::string& key) const { return path_ + "/" + key; }
+// Names of key files never start with a dot: those are left to the lock file. Characters that have a meaning in
+// paths are escaped.
+std::string FileStore::getKeyPath(const std::string& key) const {
+  static const char* hex = "0123456789ABCDEF";
+  std::string name;
+  for (const char ch : key) {
+    const auto c = static_cast<unsigned char>(ch);
+    if (c == '/' || c == '%' || c == '\0' || (c == '.' && name.empty())) {
+      name += '%';
+      name += hex[c >> 4];
+      name += hex[c & 0xF];
+    } else {
+      name += ch;
+    }
+  }
+  return path_ + "/" + (name.empty() ? "%" : name);
+}
 
 // One lock for the whole store, which is never removed.
 std::string FileStore::getLockPath() const { return path_ + "/.lock"; }
@@ -228,7 +244,7 @@ int64_t FileStore::getNumKeys() {
   dirent* entry;
   while ((entry = readdir(dir)) != nullptr) {
     const std::string name = entry->d_name;
-    if (name != "." && name != ".." && name != ".lock") {
+    if (name[0] != '.') {
       count++;
     }
   }
-- 
2.43.0


From 3e4fc50dc7f2e31ce34248d40473b192ff19573e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:11 +0000
Subject: [PATCH 64/77] fix: stop the threads of a TCP store server before it
 goes away, and reap those of past clients

---
 src/Distributed/TCPStore.cpp | 105 ++++++++++++++++++++---------------
 1 file changed, 60 insertions(+), 45 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index f5f017e..b5686ac 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -10,6 +10,7 @@
 #include <fcntl.h>
 #include <netdb.h>
 #include <netinet/in.h>
+#include <poll.h>
 #include <sys/select.h>
 #include <sys/socket.h>
 #include <unistd.h>
@@ -215,7 +216,7 @@ class TCPStore::ServerImpl {
 
  private:
   void serverLoop();
-  void handleClientInThread(socket_t socket);
+  void handleClientInThread(socket_t socket, std::atomic<bool>& finished);
   bool handleClient(socket_t socket);
   bool handleSetCommand(socket_t socket);
   bool handleGetCommand(socket_t socket);
@@ -227,7 +228,7 @@ class TCPStore::ServerImpl {
   bool handleWorkerRegister(socket_t socket);
   bool handleWorkerUnregister(socket_t socket);
 
-  void cleanupFinishedThreads();
+  void cleanupFinishedThreads();  // with clientThreadsMutex_ held
   void shutdownAllThreads();
   void cleanupDisconnectedClients();
   void startClientMonitoring();
@@ -249,14 +250,19 @@ class TCPStore::ServerImpl {
   socket_t serverSock_;
   std::thread serverThread_;
 
-  std::vector<std::unique_ptr<std::thread>> clientThreads_;
+  struct ClientThread {
+    std::thread thread;
+    std::atomic<bool> finished{false};
+  };
+  std::vector<std::unique_ptr<ClientThread>> clientThreads_;
   std::mutex clientThreadsMutex_;
-  std::atomic<size_t> activeThreadCount_{0};
 
   std::unordered_set<socket_t> activeClients_;
   std::mutex activeClientsMutex_;
   std::thread clientMonitorThread_;
   std::atomic<bool> monitoringRunning_{false};
+  std::mutex monitorMutex_;
+  std::condition_variable monitorCV_;
 };
 
 TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool waitWorkers, int numWorkers,
@@ -646,11 +652,6 @@ TCPStore::ServerImpl::~ServerImpl() {
   shutdownServer_.store(true);
   stopClientMonitoring();
 
-  if (serverSock_ != INVALID_SOCKET) {
-    closesocket(serverSock_);
-    serverSock_ = INVALID_SOCKET;
-  }
-
   {
     std::lock_guard<std::mutex> lock(mutex_);
     for (auto& [key, cvs] : keyCVs_) {
@@ -662,7 +663,13 @@ TCPStore::ServerImpl::~ServerImpl() {
     workerCV_.notify_all();
   }
 
-  serverThread_.detach();
+  if (serverThread_.joinable()) {
+    serverThread_.join();
+  }
+  if (serverSock_ != INVALID_SOCKET) {
+    closesocket(serverSock_);
+    serverSock_ = INVALID_SOCKET;
+  }
   shutdownAllThreads();
 }
 
@@ -728,47 +735,55 @@ void TCPStore::ServerImpl::startClientMonitoring() {
   clientMonitorThread_ = std::thread([this]() {
     while (monitoringRunning_.load()) {
       cleanupDisconnectedClients();
-      std::this_thread::sleep_for(std::chrono::milliseconds(500));
+      std::unique_lock<std::mutex> lock(monitorMutex_);
+      monitorCV_.wait_for(lock, std::chrono::milliseconds(500), [this] { return !monitoringRunning_.load(); });
     }
   });
 }
 
 void TCPStore::ServerImpl::stopClientMonitoring() {
-  monitoringRunning_.store(false);
-  clientMonitorThread_.detach();
+  {
+    std::lock_guard<std::mutex> lock(monitorMutex_);
+    monitoringRunning_.store(false);
+  }
+  monitorCV_.notify_all();
+  if (clientMonitorThread_.joinable()) {
+    clientMonitorThread_.join();
+  }
 }
 
 void TCPStore::ServerImpl::cleanupDisconnectedClients() {
   std::lock_guard<std::mutex> lock(activeClientsMutex_);
 
-  auto it = activeClients_.begin();
-  while (it != activeClients_.end()) {
-    if (!detail::isSocketConnected(*it)) {
+  for (auto socket : activeClients_) {
+    if (!detail::isSocketConnected(socket)) {
       LOGI("TCPStore: Detected disconnected client, cleaning up");
-      closesocket(*it);
-      it = activeClients_.erase(it);
-    } else {
-      ++it;
+      ::shutdown(socket, SHUT_RDWR);  // its thread closes the socket
     }
   }
 }
 
 void TCPStore::ServerImpl::cleanupFinishedThreads() {
-  std::lock_guard<std::mutex> lock(clientThreadsMutex_);
-
   auto it = clientThreads_.begin();
   while (it != clientThreads_.end()) {
-    if ((*it)->joinable()) {
-      ++it;
-    } else {
+    if ((*it)->finished.load()) {
+      (*it)->thread.join();
       it = clientThreads_.erase(it);
-      activeThreadCount_.fetch_sub(1);
+    } else {
+      ++it;
     }
   }
 }
 
 void TCPStore::ServerImpl::shutdownAllThreads() {
-  std::vector<std::unique_ptr<std::thread>> threads;
+  {
+    std::lock_guard<std::mutex> lock(activeClientsMutex_);
+    for (auto socket : activeClients_) {
+      ::shutdown(socket, SHUT_RDWR);
+    }
+  }
+
+  std::vector<std::unique_ptr<ClientThread>> threads;
   {
     std::lock_guard<std::mutex> lock(clientThreadsMutex_);
     threads = std::move(clientThreads_);
@@ -776,16 +791,18 @@ void TCPStore::ServerImpl::shutdownAllThreads() {
   }
 
   for (auto& thread : threads) {
-    if (thread) {
-      thread->detach();
-    }
+    thread->thread.join();
   }
-
-  activeThreadCount_.store(0);
 }
 
 void TCPStore::ServerImpl::serverLoop() {
   while (!shutdownServer_.load()) {
+    // look at the shutdown flag now and then
+    pollfd pfd{serverSock_, POLLIN, 0};
+    if (::poll(&pfd, 1, 50) <= 0) {
+      continue;
+    }
+
     sockaddr_in clientAddr{};
     socklen_t addrLen = sizeof(clientAddr);
     socket_t clientSocket = accept(serverSock_, reinterpret_cast<sockaddr*>(&clientAddr), &addrLen);
@@ -805,38 +822,36 @@ void TCPStore::ServerImpl::serverLoop() {
     {
       std::lock_guard<std::mutex> lock(clientThreadsMutex_);
 
-      if (clientThreads_.size() > 128) {
-        cleanupFinishedThreads();
-      }
+      cleanupFinishedThreads();
 
-      auto thread = std::make_unique<std::thread>(&ServerImpl::handleClientInThread, this, clientSocket);
-      clientThreads_.push_back(std::move(thread));
-      activeThreadCount_.fetch_add(1);
+      auto client = std::make_unique<ClientThread>();
+      client->thread = std::thread(&ServerImpl::handleClientInThread, this, clientSocket, std::ref(client->finished));
+      clientThreads_.push_back(std::move(client));
     }
   }
 }
 
-void TCPStore::ServerImpl::handleClientInThread(socket_t socket) {
+void TCPStore::ServerImpl::handleClientInThread(socket_t socket, std::atomic<bool>& finished) {
   struct ThreadGuard {
-    std::atomic<size_t>& counter;
+    std::atomic<bool>& finished_;
     socket_t socket_;
     std::unordered_set<socket_t>& activeClients_;
     std::mutex& activeClientsMutex_;
 
-    explicit ThreadGuard(std::atomic<size_t>& c, socket_t s, std::unordered_set<socket_t>& clients, std::mutex& mutex)
-        : counter(c), socket_(s), activeClients_(clients), activeClientsMutex_(mutex) {}
+    explicit ThreadGuard(std::atomic<bool>& f, socket_t s, std::unordered_set<socket_t>& clients, std::mutex& mutex)
+        : finished_(f), socket_(s), activeClients_(clients), activeClientsMutex_(mutex) {}
 
     ~ThreadGuard() {
-      counter.fetch_sub(1);
       {
         std::lock_guard<std::mutex> lock(activeClientsMutex_);
         activeClients_.erase(socket_);
+        closesocket(socket_);
       }
-      closesocket(socket_);
+      finished_.store(true);
     }
   };
 
-  ThreadGuard guard(activeThreadCount_, socket, activeClients_, activeClientsMutex_);
+  ThreadGuard guard(finished, socket, activeClients_, activeClientsMutex_);
 
   timeval timeout{};
   timeout.tv_sec = 1;  // 1s
-- 
2.43.0


From 4778c3836c21b481cfd97fa7f06ac30d037ac5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 65/77] fix: wake the waiters of a TCP store whenever a key is
 set

---
 src/Distributed/TCPStore.cpp | 81 ++++--------------------------------
 1 file changed, 8 insertions(+), 73 deletions(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index b5686ac..10a4415 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -245,7 +245,7 @@ class TCPStore::ServerImpl {
   std::condition_variable workerCV_;
   std::atomic<int> registeredWorkers_;
 
-  std::unordered_map<std::string, std::vector<std::shared_ptr<std::condition_variable>>> keyCVs_;
+  std::condition_variable keyCV_;  // notified whenever a key may have come into being
 
   socket_t serverSock_;
   std::thread serverThread_;
@@ -654,12 +654,7 @@ TCPStore::ServerImpl::~ServerImpl() {
 
   {
     std::lock_guard<std::mutex> lock(mutex_);
-    for (auto& [key, cvs] : keyCVs_) {
-      for (auto& cv : cvs) {
-        cv->notify_all();
-      }
-    }
-    keyCVs_.clear();
+    keyCV_.notify_all();
     workerCV_.notify_all();
   }
 
@@ -928,14 +923,7 @@ bool TCPStore::ServerImpl::handleSetCommand(socket_t socket) {
   {
     std::lock_guard<std::mutex> lock(mutex_);
     keyValueStore_[key] = std::move(value);
-
-    auto it = keyCVs_.find(key);
-    if (it != keyCVs_.end()) {
-      for (auto& cv : it->second) {
-        cv->notify_all();
-      }
-      keyCVs_.erase(it);
-    }
+    keyCV_.notify_all();
   }
 
   uint8_t confirmation = 1;
@@ -954,7 +942,6 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
   }
 
   std::vector<uint8_t> value;
-  std::shared_ptr<std::condition_variable> cv;
   bool success = false;
 
   {
@@ -964,9 +951,6 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
     if (it != keyValueStore_.end()) {
       value = it->second;
       success = true;
-    } else {
-      cv = std::make_shared<std::condition_variable>();
-      keyCVs_[key].push_back(cv);
     }
   }
 
@@ -981,11 +965,11 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
 
     if (timeout_ != kNoTimeout) {
       auto waitUntil = std::chrono::steady_clock::now() + timeout_;
-      success = cv->wait_until(lock, waitUntil, [this, &key] {
+      success = keyCV_.wait_until(lock, waitUntil, [this, &key] {
         return shutdownServer_.load() || keyValueStore_.find(key) != keyValueStore_.end();
       });
     } else {
-      cv->wait(lock,
+      keyCV_.wait(lock,
                [this, &key] { return shutdownServer_.load() || keyValueStore_.find(key) != keyValueStore_.end(); });
       success = true;
     }
@@ -994,15 +978,6 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
       success = false;
     }
 
-    auto cvIt = keyCVs_.find(key);
-    if (cvIt != keyCVs_.end()) {
-      auto& cvs = cvIt->second;
-      cvs.erase(std::remove(cvs.begin(), cvs.end(), cv), cvs.end());
-      if (cvs.empty()) {
-        keyCVs_.erase(cvIt);
-      }
-    }
-
     if (success) {
       auto valueIt = keyValueStore_.find(key);
       if (valueIt != keyValueStore_.end()) {
@@ -1050,14 +1025,7 @@ bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
     }
     auto newValStr = std::to_string(newValue);
     keyValueStore_[key] = std::vector<uint8_t>(newValStr.begin(), newValStr.end());
-
-    auto it = keyCVs_.find(key);
-    if (it != keyCVs_.end()) {
-      for (auto& cv : it->second) {
-        cv->notify_all();
-      }
-      keyCVs_.erase(it);
-    }
+    keyCV_.notify_all();
   }
 
   return detail::sendBytes(socket, &newValue, sizeof(newValue));
@@ -1117,41 +1085,19 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
   }
 
   bool success = true;
-  std::shared_ptr<std::condition_variable> cv;
-  std::vector<std::string> missingKeys;
-
-  {
-    std::unique_lock<std::mutex> lock(mutex_);
-
-    for (const auto& key : keys) {
-      if (keyValueStore_.find(key) == keyValueStore_.end()) {
-        missingKeys.push_back(key);
-      }
-    }
-
-    if (missingKeys.empty()) {
-      uint8_t result = 1;
-      return detail::sendBytes(socket, &result, sizeof(result));
-    }
-
-    cv = std::make_shared<std::condition_variable>();
-    for (const auto& key : missingKeys) {
-      keyCVs_[key].push_back(cv);
-    }
-  }
 
   {
     std::unique_lock<std::mutex> lock(mutex_);
 
     if (timeout_ != kNoTimeout) {
       auto waitUntil = std::chrono::steady_clock::now() + timeout_;
-      success = cv->wait_until(lock, waitUntil, [this, &keys] {
+      success = keyCV_.wait_until(lock, waitUntil, [this, &keys] {
         return shutdownServer_.load() || std::all_of(keys.begin(), keys.end(), [this](const auto& key) {
                  return keyValueStore_.find(key) != keyValueStore_.end();
                });
       });
     } else {
-      cv->wait(lock, [this, &keys] {
+      keyCV_.wait(lock, [this, &keys] {
         return shutdownServer_.load() || std::all_of(keys.begin(), keys.end(), [this](const auto& key) {
                  return keyValueStore_.find(key) != keyValueStore_.end();
                });
@@ -1162,17 +1108,6 @@ bool TCPStore::ServerImpl::handleWaitCommand(socket_t socket) {
     if (shutdownServer_.load()) {
       success = false;
     }
-
-    for (const auto& key : missingKeys) {
-      auto it = keyCVs_.find(key);
-      if (it != keyCVs_.end()) {
-        auto& cvs = it->second;
-        cvs.erase(std::remove(cvs.begin(), cvs.end(), cv), cvs.end());
-        if (cvs.empty()) {
-          keyCVs_.erase(it);
-        }
-      }
-    }
   }
 
   uint8_t result = success ? 1 : 0;
-- 
2.43.0


From 5f0a06fc481751236751172fbb3ff342165b5547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 66/77] fix: keep the connection of a TCP store client whose
 get timed out

---
 src/Distributed/TCPStore.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index 10a4415..b5f83a4 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -51,6 +51,9 @@ enum class TCPStoreCommandType : uint8_t {
   CMD_WORKER_UNREGISTER
 };
 
+// sent instead of a value's size when the key did not come into being in time
+static constexpr uint64_t kNoValue = UINT64_MAX;
+
 static void setupSignalHandlers() {
   // ignore SIGPIPE
   signal(SIGPIPE, SIG_IGN);
@@ -465,6 +468,9 @@ bool TCPStore::ClientImpl::get(const std::string& key, std::vector<uint8_t>& val
     return false;
   }
 
+  if (valueSize == detail::kNoValue) {
+    return false;
+  }
   value.resize(valueSize);
   if (valueSize > 0 && !detail::recvBytes(clientSock_, value.data(), valueSize)) {
     LOGE("TCPStore: Failed to receive value for GET command");
@@ -995,7 +1001,7 @@ bool TCPStore::ServerImpl::handleGetCommand(socket_t socket) {
   }
 
   LOGE("TCPStore: Get timeout after %lld ms for key: %s", timeout_.count(), key.c_str());
-  return false;
+  return detail::sendBytes(socket, &detail::kNoValue, sizeof(detail::kNoValue));
 }
 
 bool TCPStore::ServerImpl::handleAddCommand(socket_t socket) {
-- 
2.43.0


From 55ee50ede88282f68726378e2b43b4461a7d0389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:28 +0000
Subject: [PATCH 67/77] fix: operations on a TCP store that could not start
 fail instead of crashing

---
 src/Distributed/TCPStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index b5f83a4..ec5c29a 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -271,6 +271,7 @@ class TCPStore::ServerImpl {
 TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool waitWorkers, int numWorkers,
                    const std::chrono::milliseconds& timeout)
     : Store(timeout), host_(host), port_(port), isServer_(isServer) {
+  client_ = std::make_unique<ClientImpl>(host, port, timeout);
   if (isServer_) {
     server_ = std::make_unique<ServerImpl>(port, numWorkers, timeout);
     if (!server_->start()) {
@@ -279,7 +280,6 @@ TCPStore::TCPStore(const std::string& host, uint16_t port, bool isServer, bool w
     }
   }
 
-  client_ = std::make_unique<ClientImpl>(host, port, timeout);
   if (!client_->connect()) {
     LOGE("TCPStore: Failed to connect client");
     return;
-- 
2.43.0


From deed1509ac34effafbcd17d20d79eeffd78688d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 68/77] fix: replace the files of the file store as a whole

---
 src/Distributed/FileStore.cpp | 51 ++++++++++++++++++-----------------
 src/Distributed/FileStore.h   |  1 +
 2 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/Distributed/FileStore.cpp b/src/Distributed/FileStore.cpp
index c233c31..5dfbc26 100644
--- a/src/Distributed/FileStore.cpp
+++ b/src/Distributed/FileStore.cpp
@@ -85,6 +85,30 @@ std::string FileStore::getKeyPath(const std::string& key) const {
 // One lock for the whole store, which is never removed.
 std::string FileStore::getLockPath() const { return path_ + "/.lock"; }
 
+// Only used by the holder of the lock.
+std::string FileStore::getTempPath() const { return path_ + "/.tmp"; }
+
+// Replaces the file as a whole: a process that dies in the middle leaves the previous value behind.
+static bool replaceFile(const std::string& tmpPath, const std::string& path, const void* data, size_t size) {
+  FILE* f = fopen(tmpPath.c_str(), "wb");
+  if (!f) {
+    LOGE("FileStore: fopen for writing failed for path: %s", tmpPath.c_str());
+    return false;
+  }
+
+  bool success = size == 0 || fwrite(data, 1, size, f) == size;
+  success = (fclose(f) == 0) && success;
+  if (!success) {
+    LOGE("FileStore: fwrite failed for path: %s", tmpPath.c_str());
+    return false;
+  }
+  if (rename(tmpPath.c_str(), path.c_str()) != 0) {
+    LOGE("FileStore: rename failed for path: %s", path.c_str());
+    return false;
+  }
+  return true;
+}
+
 void FileStore::set(const std::string& key, const std::vector<uint8_t>& value) {
   const auto path = getKeyPath(key);
   FileLock lock(getLockPath());
@@ -93,19 +117,7 @@ void FileStore::set(const std::string& key, const std::vector<uint8_t>& value) {
     return;
   }
 
-  FILE* f = fopen(path.c_str(), "wb");
-  if (!f) {
-    LOGE("FileStore: fopen for writing failed for path: %s", path.c_str());
-    return;
-  }
-
-  if (!value.empty()) {
-    size_t written = fwrite(value.data(), 1, value.size(), f);
-    if (written != value.size()) {
-      LOGE("FileStore: fwrite failed for path: %s", path.c_str());
-    }
-  }
-  fclose(f);
+  replaceFile(getTempPath(), path, value.data(), value.size());
 }
 
 std::vector<uint8_t> FileStore::get(const std::string& key) {
@@ -193,19 +205,8 @@ int64_t FileStore::add(const std::string& key, int64_t value) {
 
   currentValue += value;
 
-  FILE* fWrite = fopen(path.c_str(), "wb");
-  if (!fWrite) {
-    LOGE("FileStore: fopen for writing failed for path: %s", path.c_str());
-    return currentValue;
-  }
-
-  using FileCloserFn = int (*)(FILE*);
-  std::unique_ptr<FILE, FileCloserFn> fileGuard(fWrite, &fclose);
   std::string s = std::to_string(currentValue);
-  if (fwrite(s.c_str(), 1, s.length(), fWrite) != s.length()) {
-    LOGE("FileStore: fwrite failed for path: %s", path.c_str());
-  }
-
+  replaceFile(getTempPath(), path, s.data(), s.size());
   return currentValue;
 }
 
diff --git a/src/Distributed/FileStore.h b/src/Distributed/FileStore.h
index 221c4e6..ed26b47 100644
--- a/src/Distributed/FileStore.h
+++ b/src/Distributed/FileStore.h
@@ -29,6 +29,7 @@ class FileStore : public Store {
  private:
   std::string getKeyPath(const std::string& key) const;
   std::string getLockPath() const;
+  std::string getTempPath() const;
   bool checkKey(const std::string& key) const;
 
   std::string path_;
-- 
2.43.0


From 149af0a453290738cb0930eb4f3aa908e15a5f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:34 +0000
Subject: [PATCH 69/77] fix: log messages longer than the buffer are written
 whole

---
 src/Utils/Logger.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/Utils/Logger.cpp b/src/Utils/Logger.cpp
index a198976..38dedad 100644
--- a/src/Utils/Logger.cpp
+++ b/src/Utils/Logger.cpp
@@ -8,6 +8,7 @@
 
 #include <cstdarg>
 #include <cstdio>
+#include <string>
 
 namespace tinytorch {
 
@@ -28,43 +29,53 @@ void Logger::log(LogLevel level, const char *file, int line, const char *message
 
   va_list argPtr;
   va_start(argPtr, message);
-  vsnprintf(buf_, MAX_LOG_LENGTH - 1, message, argPtr);
+  int length = vsnprintf(buf_, MAX_LOG_LENGTH, message, argPtr);
   va_end(argPtr);
-  buf_[MAX_LOG_LENGTH - 1] = '\0';
+  const char *text = buf_;
+
+  // messages that do not fit into the fixed buffer, such as fully printed tensors
+  std::string longText;
+  if (length >= MAX_LOG_LENGTH) {
+    longText.resize(length + 1);
+    va_start(argPtr, message);
+    vsnprintf(&longText[0], longText.size(), message, argPtr);
+    va_end(argPtr);
+    text = longText.c_str();
+  }
 
   if (logFunc_ != nullptr) {
-    logFunc_(logContext_, level, buf_);
+    logFunc_(logContext_, level, text);
     return;
   }
 
 #ifdef LOG_FILE_LINE
   switch (level) {
     case LOG_INFO:
-      fprintf(stdout, "[INFO] %s:%d: %s\n", file, line, buf_);
+      fprintf(stdout, "[INFO] %s:%d: %s\n", file, line, text);
       break;
     case LOG_DEBUG:
-      fprintf(stdout, "[DEBUG] %s:%d: %s\n", file, line, buf_);
+      fprintf(stdout, "[DEBUG] %s:%d: %s\n", file, line, text);
       break;
     case LOG_WARNING:
-      fprintf(stdout, "[WARNING] %s:%d: %s\n", file, line, buf_);
+      fprintf(stdout, "[WARNING] %s:%d: %s\n", file, line, text);
       break;
     case LOG_ERROR:
-      fprintf(stdout, "[ERROR] %s:%d: %s\n", file, line, buf_);
+      fprintf(stdout, "[ERROR] %s:%d: %s\n", file, line, text);
       break;
   }
 #else
   switch (level) {
     case LOG_INFO:
-      fprintf(stdout, "[INFO] %s\n", buf_);
+      fprintf(stdout, "[INFO] %s\n", text);
       break;
     case LOG_DEBUG:
-      fprintf(stdout, "[DEBUG] %s\n", buf_);
+      fprintf(stdout, "[DEBUG] %s\n", text);
       break;
     case LOG_WARNING:
-      fprintf(stdout, "[WARNING] %s\n", buf_);
+      fprintf(stdout, "[WARNING] %s\n", text);
       break;
     case LOG_ERROR:
-      fprintf(stderr, "[ERROR] %s\n", buf_);
+      fprintf(stderr, "[ERROR] %s\n", text);
       break;
   }
 #endif
-- 
2.43.0


From 8b0d05afa552d90253baec445ba7986502d279d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:45 +0000
Subject: [PATCH 70/77] fix: the TCP store goes on after interrupted system
 calls

---
 src/Distributed/TCPStore.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/TCPStore.cpp b/src/Distributed/TCPStore.cpp
index ec5c29a..ba99598 100644
--- a/src/Distributed/TCPStore.cpp
+++ b/src/Distributed/TCPStore.cpp
@@ -71,6 +71,8 @@ static bool sendBytes(socket_t socket, const void* data, size_t size) {
       if (error == EPIPE || error == ECONNRESET || error == ECONNABORTED) {
         LOGE("TCPStore: Client disconnected (EPIPE/ECONNRESET/ECONNABORTED)");
         return false;
+      } else if (error == EINTR) {
+        continue;
       } else if (error == EAGAIN) {
         std::this_thread::sleep_for(std::chrono::milliseconds(1));
         continue;
@@ -100,6 +102,8 @@ static bool recvBytes(socket_t socket, void* data, size_t size) {
       if (error == ECONNRESET || error == EPIPE || error == ECONNABORTED) {
         LOGE("TCPStore: Client disconnected during recv");
         return false;
+      } else if (error == EINTR) {
+        continue;
       } else if (error == EAGAIN) {
         std::this_thread::sleep_for(std::chrono::milliseconds(1));
         continue;
@@ -395,7 +399,17 @@ bool TCPStore::ClientImpl::connect() {
   // connect & retry
   bool connected = false;
   for (int i = 0; i < maxRetries && !connected; i++) {
-    if (::connect(clientSock_, reinterpret_cast<sockaddr*>(&addr), sizeof(addr)) == 0) {
+    int ret = ::connect(clientSock_, reinterpret_cast<sockaddr*>(&addr), sizeof(addr));
+    if (ret != 0 && errno == EINTR) {
+      // goes on in the background
+      pollfd pfd{clientSock_, POLLOUT, 0};
+      while (::poll(&pfd, 1, -1) < 0 && errno == EINTR) {
+      }
+      int error = 0;
+      socklen_t len = sizeof(error);
+      ret = getsockopt(clientSock_, SOL_SOCKET, SO_ERROR, &error, &len) == 0 && error == 0 ? 0 : -1;
+    }
+    if (ret == 0) {
       connected = true;
       break;
     }
-- 
2.43.0


From 9f2d11c837b9111d48ce9f0f882e0db6fc2c6892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 71/77] fix: the timeout of a process group did not reach its
 backend

---
 src/Distributed/DistributedProcessGroup.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Distributed/DistributedProcessGroup.cpp b/src/Distributed/DistributedProcessGroup.cpp
index 9c90ca1..140e17c 100644
--- a/src/Distributed/DistributedProcessGroup.cpp
+++ b/src/Distributed/DistributedProcessGroup.cpp
@@ -52,7 +52,6 @@ bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::s
 
   auto store = createStore(config);
   processGroup_ = std::make_shared<ProcessGroup>(store, config.rank, config.worldSize);
-  processGroup_->setTimeout(timeout);
   processGroup_->setDefaultBackend(backend);
 
   switch (backend) {
@@ -66,6 +65,8 @@ bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::s
       return false;
     }
   }
+  // reaches the backends that are set
+  processGroup_->setTimeout(timeout);
 
   LOGD("Init ProcessGroup success, backend=%s", backendTypeToString(backend));
   return true;
-- 
2.43.0


From a4a5343fa80b74e8606ea11a4ef81dc7aad2109f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 72/77] fix: a process group refused for its backend stayed
 initialized

---
 src/Distributed/DistributedProcessGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Distributed/DistributedProcessGroup.cpp b/src/Distributed/DistributedProcessGroup.cpp
index 140e17c..d6ff445 100644
--- a/src/Distributed/DistributedProcessGroup.cpp
+++ b/src/Distributed/DistributedProcessGroup.cpp
@@ -62,6 +62,7 @@ bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::s
     }
     default: {
       LOGE("Invalid ProcessGroup backend, backend=%d", backend);
+      processGroup_.reset();
       return false;
     }
   }
-- 
2.43.0


From f75a413a716d0a4dc5843d87674fa89bbfd7f79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 73/77] fix: process groups over tcp and env ignored
 waitWorkers and the timeout

---
 src/Distributed/DistributedProcessGroup.cpp | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/Distributed/DistributedProcessGroup.cpp b/src/Distributed/DistributedProcessGroup.cpp
index d6ff445..4bb4eee 100644
--- a/src/Distributed/DistributedProcessGroup.cpp
+++ b/src/Distributed/DistributedProcessGroup.cpp
@@ -134,19 +134,16 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
 }
 
 std::shared_ptr<Store> DistributedProcessGroup::createStore(const InitConfig& config) {
-  auto timeout = kBackendDefaultTimeout;
-
   // env
   if (config.method == InitMethod::ENV) {
     bool isServer = (config.rank == 0);
     int numWorkers = config.worldSize;
-    bool waitWorkers = true;
-    return std::make_shared<TCPStore>(config.masterAddr,  // host
-                                      config.masterPort,  // port
-                                      isServer,           // isServer
-                                      waitWorkers,        // waitWorkers
-                                      numWorkers,         // numWorkers
-                                      timeout             // timeout
+    return std::make_shared<TCPStore>(config.masterAddr,   // host
+                                      config.masterPort,   // port
+                                      isServer,            // isServer
+                                      config.waitWorkers,  // waitWorkers
+                                      numWorkers,          // numWorkers
+                                      config.timeout       // timeout
     );
   }
 
@@ -154,13 +151,12 @@ std::shared_ptr<Store> DistributedProcessGroup::createStore(const InitConfig& co
   if (config.method == InitMethod::TCP) {
     bool isServer = (config.rank == 0);
     int numWorkers = config.worldSize;
-    bool waitWorkers = true;
     return std::make_shared<TCPStore>(config.masterAddr,                         // host
                                       static_cast<uint16_t>(config.masterPort),  // port
                                       isServer,                                  // isServer
-                                      waitWorkers,                               // waitWorkers
+                                      config.waitWorkers,                        // waitWorkers
                                       numWorkers,                                // numWorkers
-                                      timeout                                    // timeout
+                                      config.timeout                             // timeout
     );
   }
 
-- 
2.43.0


From 231801c00333d065ba05a1d8093eb7650d3590d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 74/77] fix: malformed ports, ranks and world sizes ended the
 process or were cut to 16 bits

---
 src/Distributed/DistributedProcessGroup.cpp | 41 +++++++++++++++++----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/src/Distributed/DistributedProcessGroup.cpp b/src/Distributed/DistributedProcessGroup.cpp
index 4bb4eee..840500e 100644
--- a/src/Distributed/DistributedProcessGroup.cpp
+++ b/src/Distributed/DistributedProcessGroup.cpp
@@ -6,6 +6,7 @@
 
 #include "DistributedProcessGroup.h"
 
+#include <climits>
 #include <iostream>
 #include <regex>
 
@@ -15,6 +16,24 @@
 
 namespace tinytorch::distributed {
 
+constexpr int kMaxPort = 65535;
+
+// a whole string that is a number within the bounds
+static bool parseNumber(const std::string& str, int maxValue, int& value) {
+  if (str.empty() || str.find_first_not_of("0123456789") != std::string::npos) {
+    return false;
+  }
+  int64_t number = 0;
+  for (const char ch : str) {
+    number = number * 10 + (ch - '0');
+    if (number > maxValue) {
+      return false;
+    }
+  }
+  value = static_cast<int>(number);
+  return true;
+}
+
 bool DistributedProcessGroup::initProcessGroup(BackendType backend, const std::string& initMethod, int rank,
                                                int worldSize, std::chrono::milliseconds timeout, bool waitWorkers) {
   if (processGroup_ != nullptr) {
@@ -92,17 +111,20 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
     }
 
     config.masterAddr = envAddr;
-    if (envPort) {
-      config.masterPort = std::stoi(envPort);
-    } else {
+    if (!envPort) {
       config.masterPort = TCPStore::kDefaultPort;
+    } else if (!parseNumber(envPort, kMaxPort, config.masterPort)) {
+      LOGE("InitMethod: env, invalid MASTER_PORT: %s", envPort);
+      return {};
     }
 
-    if (envWorldSize && config.worldSize == -1) {
-      config.worldSize = std::stoi(envWorldSize);
+    if (envWorldSize && config.worldSize == -1 && !parseNumber(envWorldSize, INT_MAX, config.worldSize)) {
+      LOGE("InitMethod: env, invalid WORLD_SIZE: %s", envWorldSize);
+      return {};
     }
-    if (envRank && config.rank == -1) {
-      config.rank = std::stoi(envRank);
+    if (envRank && config.rank == -1 && !parseNumber(envRank, INT_MAX, config.rank)) {
+      LOGE("InitMethod: env, invalid RANK: %s", envRank);
+      return {};
     }
   } else if (initString.substr(0, 6) == "tcp://") {
     config.method = InitMethod::TCP;
@@ -114,7 +136,10 @@ DistributedProcessGroup::InitConfig DistributedProcessGroup::parseInitString(con
 
     if (std::regex_match(initString, matches, tcpRegexWithPort)) {
       config.masterAddr = matches[1].str();
-      config.masterPort = std::stoi(matches[2].str());
+      if (!parseNumber(matches[2].str(), kMaxPort, config.masterPort)) {
+        LOGE("InitMethod: tcp, invalid port: %s", matches[2].str().c_str());
+        return {};
+      }
     } else if (std::regex_match(initString, matches, tcpRegexNoPort)) {
       config.masterAddr = matches[1].str();
       config.masterPort = TCPStore::kDefaultPort;
-- 
2.43.0


From cd0ac1189a6afcab055e403508deb7a3bae60521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 75/77] fix: a failing communicator set-up locked its mutex
 twice and hung

---
 src/Distributed/BackendNCCL.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/Distributed/BackendNCCL.cpp b/src/Distributed/BackendNCCL.cpp
index 4d578ee..78d8d31 100644
--- a/src/Distributed/BackendNCCL.cpp
+++ b/src/Distributed/BackendNCCL.cpp
@@ -125,24 +125,34 @@ std::shared_ptr<NCCLComm> BackendNCCL::getNCCLComm(const std::string& deviceKey,
     return it->second;
   }
 
+  // mutex_ is held
+  auto fail = [this]() -> std::shared_ptr<NCCLComm> {
+    if (error_ == BackendErrorType::SUCCESS) {
+      error_ = BackendErrorType::COMM_ERROR;
+    }
+    return nullptr;
+  };
+
   ncclUniqueId commId;
   std::string key = NCCL_COMM_ID_PREFIX + std::to_string(ncclCommCounter_++);
   if (getRank() == 0) {
-    NCCL_CALL(ncclGetUniqueId(&commId));
+    ncclResult_t ret = ncclGetUniqueId(&commId);
+    if (ret != ncclSuccess) {
+      NCCL_ERROR(ret);
+      return fail();
+    }
     store_->set(key, std::string(reinterpret_cast<char*>(&commId), sizeof(commId)));
   } else {
     auto idData = store_->get(key);
     if (idData.size() != sizeof(commId)) {
-      setError(BackendErrorType::COMM_ERROR);
-      return nullptr;
+      return fail();
     }
     std::memcpy(&commId, idData.data(), sizeof(commId));
   }
 
   auto comm = NCCLComm::create(getSize(), getRank(), commId, device.index);
   if (!comm) {
-    setError(BackendErrorType::COMM_ERROR);
-    return nullptr;
+    return fail();
   }
 
   devNCCLCommMap_[deviceKey] = comm;
-- 
2.43.0


From 44d46e58b6d73319490e829779a2184ae8b34f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:22 +0000
Subject: [PATCH 76/77] fix: reduceScatter read its stacked input after it was
 released

---
 src/Distributed/BackendNCCL.h | 1 +
 src/Distributed/WorkNCCL.h    | 3 +++
 2 files changed, 4 insertions(+)

diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index b131ab7..8e873d4 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -174,6 +174,7 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Fun
   work->setStore(store_);
   work->setIsBarrierOp(opType == OpType::BARRIER);
   work->setCudaEvent(cuda::createCUDAEvent(device.index));
+  work->setInputs({input});
   work->setOutputs({output});
 
   cuda::CudaDeviceGuard guard(device.index);
diff --git a/src/Distributed/WorkNCCL.h b/src/Distributed/WorkNCCL.h
index 1991e37..68d3c0c 100644
--- a/src/Distributed/WorkNCCL.h
+++ b/src/Distributed/WorkNCCL.h
@@ -32,6 +32,8 @@ class WorkNCCL : public Work {
   void setStore(const std::shared_ptr<Store>& store) { store_ = store; }
   void setIsBarrierOp(bool isBarrierOp) { isBarrierOp_ = isBarrierOp; }
   void setCudaEvent(cuda::CUDAEvent&& event) { cudaEvent_ = std::move(event); }
+  // kept until the work is released: the operation may read them after the call that issued it has returned
+  void setInputs(std::vector<Tensor>&& input) { inputs_ = std::move(input); }
   void setOutputs(std::vector<Tensor>&& output) { outputs_ = std::move(output); }
 
   const Device& getDevice() const { return device_; }
@@ -55,6 +57,7 @@ class WorkNCCL : public Work {
 
   bool isBarrierOp_{false};
   cuda::CUDAEvent cudaEvent_;
+  std::vector<Tensor> inputs_;
   std::vector<Tensor> outputs_;
 };
 
-- 
2.43.0


From bbe6e12730e6e23f52d7a233b4bb1c72abc4449d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:35 +0000
Subject: [PATCH 77/77] fix: the NCCL backend kept a record of every finished
 operation

---
 src/Distributed/BackendNCCL.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Distributed/BackendNCCL.h b/src/Distributed/BackendNCCL.h
index 8e873d4..02912ed 100644
--- a/src/Distributed/BackendNCCL.h
+++ b/src/Distributed/BackendNCCL.h
@@ -187,6 +187,7 @@ std::shared_ptr<Work> BackendNCCL::collective(Tensor& input, Tensor& output, Fun
   }
 
   work->getCudaEvent().record(ncclStream);
+  cleanupCompletedWorks();
   workEnqueue(work);
   return work;
 }
-- 
2.43.0

