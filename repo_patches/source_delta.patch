From ee0c6be6b51e0314d8a680f74e6a5f8ad23ede2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:15 +0000
Subject: [PATCH 001/110] fix: reshape must not alias its input

The result of a reshape shared its memory with the operand. An op that
runs in place on the reshaped value then overwrote the operand, including
values the caller bound to input nodes.
---
 op_tensor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/op_tensor.go b/op_tensor.go
index 0f6b09a..5886454 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1162,7 +1162,9 @@ func (op reshapeOp) Do(vals ...Value) (Value, error) {
 			if v.IsView() {
 				val = v.Materialize()
 			} else {
-				val = v.ShallowClone()
+				// the result must not share its memory with the input: ops further down
+				// the line are free to overwrite the result in place
+				val = v.Clone().(*tensor.Dense)
 			}
 		} else {
 			if val, err = CloneValue(vals[0]); err != nil {
-- 
2.43.0


From f85266cc15795fdcc1a63ae3f0b1907569de7a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:07:57 +0000
Subject: [PATCH 002/110] fix: hash softmax and log-softmax differently

Both ops hashed to the same value, so adding LogSoftMax(x) to a graph that
already holds SoftMax(x) returned the softmax node.
---
 op_softmax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_softmax.go b/op_softmax.go
index 42080f9..4244c63 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -49,7 +49,7 @@ func (op *softmaxOp) ReturnsPtr() bool { return false }
 
 func (op *softmaxOp) CallsExtern() bool { return false }
 
-func (op *softmaxOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "Softmax{%v}()", op.axis) }
+func (op *softmaxOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "Softmax{%v, %v}()", op.axis, op.isLog) }
 
 func (op *softmaxOp) Hashcode() uint32 { return simpleHash(op) }
 
-- 
2.43.0


From a02f68860080584c0c97982d15224300f576fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:08:09 +0000
Subject: [PATCH 003/110] fix: comparisons returning bools must not run in
 place

A comparison with retSame=false was compiled to overwrite its first operand
when that operand was dead. The result then had the dtype of the operand,
and comparing with a scalar crashed.
---
 op_math.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/op_math.go b/op_math.go
index 36cd06d..72d3648 100644
--- a/op_math.go
+++ b/op_math.go
@@ -283,6 +283,11 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 func (op elemBinOp) ReturnsPtr() bool { return true }
 
 func (op elemBinOp) OverwritesInput() int {
+	// a comparison that returns booleans cannot reuse the memory of its operands
+	if !op.isArith() && !op.retSame {
+		return -1
+	}
+
 	if _, ok := op.arg0.(TensorType); ok {
 		return 0
 	}
-- 
2.43.0


From 597e05c3e19c94257c37787f190cb1ca8130e04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:09:49 +0000
Subject: [PATCH 004/110] fix: stabilising log(softmax) must not change a
 softmax that is in use

The rewrite of log(softmax(x)) switched the existing softmax node over to
log-softmax, even if other nodes already use it as softmax. Also,
log(logsoftmax(x)) silently dropped the outer log.
---
 stabilization.go | 43 +++++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/stabilization.go b/stabilization.go
index c81513b..96ce12f 100644
--- a/stabilization.go
+++ b/stabilization.go
@@ -208,8 +208,10 @@ func logSoftmaxStabilization(a *Node) (retVal *Node, err error) {
 
 	switch op := a.op.(type) {
 	case *softmaxOp:
-		op.isLog = true
-		return a, nil
+		if op.isLog {
+			return a, noStabilizationErr{}
+		}
+		return toLogSoftmax(a, op)
 	case elemBinOp:
 		if op.ʘBinaryOperator.binOpType() == mulOpType {
 			fst := a.children[0]
@@ -217,11 +219,11 @@ func logSoftmaxStabilization(a *Node) (retVal *Node, err error) {
 
 			var hasSm bool
 			var smop1, smop2 *softmaxOp
-			if smop, ok := fst.op.(*softmaxOp); ok {
+			if smop, ok := fst.op.(*softmaxOp); ok && !smop.isLog {
 				hasSm = true
 				smop1 = smop
 			}
-			if smop, ok := snd.op.(*softmaxOp); ok {
+			if smop, ok := snd.op.(*softmaxOp); ok && !smop.isLog {
 				hasSm = true
 				smop2 = smop
 			}
@@ -230,22 +232,26 @@ func logSoftmaxStabilization(a *Node) (retVal *Node, err error) {
 				var newFst, newSnd *Node
 				switch {
 				case smop1 != nil && smop2 == nil:
-					smop1.isLog = true
-					newFst = fst
+					if newFst, err = toLogSoftmax(fst, smop1); err != nil {
+						return nil, err
+					}
 					if newSnd, err = Log(snd); err != nil {
 						return nil, err
 					}
 				case smop1 == nil && smop2 != nil:
-					smop2.isLog = true
-					newSnd = snd
+					if newSnd, err = toLogSoftmax(snd, smop2); err != nil {
+						return nil, err
+					}
 					if newFst, err = Log(fst); err != nil {
 						return nil, err
 					}
 				case smop1 != nil && smop2 != nil:
-					smop1.isLog = true
-					smop2.isLog = true
-					newFst = fst
-					newSnd = snd
+					if newFst, err = toLogSoftmax(fst, smop1); err != nil {
+						return nil, err
+					}
+					if newSnd, err = toLogSoftmax(snd, smop2); err != nil {
+						return nil, err
+					}
 				default:
 					return a, noStabilizationErr{}
 				}
@@ -263,6 +269,19 @@ func logSoftmaxStabilization(a *Node) (retVal *Node, err error) {
 
 }
 
+// toLogSoftmax returns the log softmax that corresponds to the softmax node a.
+// If a is used by other nodes it is left alone. Otherwise it is turned into the log softmax,
+// so that no dangling root is left behind in the graph.
+func toLogSoftmax(a *Node, op *softmaxOp) (retVal *Node, err error) {
+	if a.g.To(a.ID()).Len() == 0 {
+		op.isLog = true
+		return a, nil
+	}
+	logOp := newSoftmaxOp(op.shape, op.axis)
+	logOp.isLog = true
+	return ApplyOp(logOp, a.children[0])
+}
+
 /* Graph Optimizations */
 
 // negNegOptimization optimizes away -(-x) to just return x
-- 
2.43.0


From 6d1aa7b981d0e6f580ec762983234d7ede520096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:28 +0000
Subject: [PATCH 005/110] fix: sign of a scalar zero is zero

The scalar implementation returned 1 (or -1 for negative zero), while the
same op on tensors returns 0.
---
 math.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/math.go b/math.go
index f11f7db..60ae4cd 100644
--- a/math.go
+++ b/math.go
@@ -2,8 +2,6 @@ package gorgonia
 
 import (
 	"math"
-
-	"github.com/chewxy/math32"
 )
 
 // functions in this file are functions that do not have an optimized/hacked up version
@@ -11,17 +9,23 @@ import (
 
 /* UNARY OPS */
 func _signf32(x float32) float32 {
-	if math32.Signbit(x) {
-		return float32(-1.0)
+	switch {
+	case x > 0:
+		return 1
+	case x < 0:
+		return -1
 	}
-	return 1
+	return x // 0 or NaN
 }
 
 func _signf64(x float64) float64 {
-	if math.Signbit(x) {
-		return -1.0
+	switch {
+	case x > 0:
+		return 1
+	case x < 0:
+		return -1
 	}
-	return 1
+	return x // 0 or NaN
 }
 
 func _squaref64(x float64) float64 { return x * x }
-- 
2.43.0


From f92d412126e61d2705baccb231f787dbbb678d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:40 +0000
Subject: [PATCH 006/110] fix: slicing down to one element keeps the announced
 shape

Selecting a single element of a tensor that has other dimensions of size 1
gave a scalar, while the node was announced as a tensor.
---
 op_tensor.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 5886454..3d076df 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -595,9 +595,18 @@ func (op *sliceOp) Do(inputs ...Value) (retVal Value, err error) {
 		if v, err = T.Slice(slices...); err != nil {
 			return nil, errors.Wrapf(err, sliceFail, slices)
 		}
-		if v.IsScalar() {
+		var expected tensor.Shape
+		if expected, err = op.InferShape(t.Shape()); err != nil {
+			return nil, errors.Wrapf(err, sliceFail, slices)
+		}
+		switch {
+		case v.IsScalar() && !expected.IsScalar():
+			// a single element was selected, but dimensions of size 1 that were not sliced are kept
+			retVal = tensor.New(tensor.WithShape(expected...), tensor.Of(v.Dtype()))
+			err = retVal.(*tensor.Dense).Memset(v.ScalarValue())
+		case v.IsScalar():
 			retVal, _ = anyToScalar(v.ScalarValue())
-		} else {
+		default:
 			retVal = v.(tensor.View).Materialize()
 		}
 	case Scalar:
-- 
2.43.0


From e08ab8c9e79a04701cb215e679abfc9d4c14dab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:12:52 +0000
Subject: [PATCH 007/110] fix: infer the shape of a slice whose step does not
 divide its range

Slicing an inner axis with a step rounds the number of elements up, but the
inferred shape rounded down. Building such a slice panicked.
---
 op_tensor.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 3d076df..b2cc9c3 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -527,9 +527,20 @@ func (op *sliceOp) InferShape(inputs ...DimSizer) (s tensor.Shape, err error) {
 	slices := make([]tensor.Slice, op.along+1)
 	slices[op.along] = op.Slice
 
-	return input.S(slices...)
+	if op.along > 0 && op.Slice != nil && op.Step() > 1 {
+		// input.S() rounds down the number of elements selected, the slicing of the values rounds up
+		var start, end, step int
+		if start, end, step, err = tensor.SliceDetails(op.Slice, input[op.along]); err != nil {
+			return nil, err
+		}
+		if rem := (end - start) % step; rem > 0 {
+			slices[op.along] = S(start, end+step-rem, step)
+			input = input.Clone()
+			input[op.along] = end + step - rem
+		}
+	}
 
-	// return input.S(op.Slice)
+	return input.S(slices...)
 }
 
 func (op *sliceOp) DiffWRT(i int) []bool {
-- 
2.43.0


From de378aba6c82892941a14828c21fe9d6a53b6c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:01 +0000
Subject: [PATCH 008/110] fix: gradient of Log2 divides by x*ln(2)

---
 operatorPointwise_unary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operatorPointwise_unary.go b/operatorPointwise_unary.go
index c6338b0..20eed10 100644
--- a/operatorPointwise_unary.go
+++ b/operatorPointwise_unary.go
@@ -266,7 +266,7 @@ func log2DiffExpr(x, y, gradY *Node) (retVal *Node, err error) {
 		return nil, errors.Wrap(err, "getConst failed")
 	}
 
-	if retVal, err = HadamardDiv(x, log2); err != nil {
+	if retVal, err = HadamardProd(x, log2); err != nil {
 		return nil, errors.Wrap(err, hadamardProdFail)
 	}
 	WithGroupName(gradClust)(retVal)
-- 
2.43.0


From 49aada691b1ba1278ffdb99629a54d4bf0bcde26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:15 +0000
Subject: [PATCH 009/110] fix: gradients of InverseSqrt

---
 operatorPointwise_unary.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/operatorPointwise_unary.go b/operatorPointwise_unary.go
index 20eed10..19dcb01 100644
--- a/operatorPointwise_unary.go
+++ b/operatorPointwise_unary.go
@@ -468,10 +468,10 @@ func inverseSqrtDiffExpr(x, y, gradY *Node) (retVal *Node, err error) {
 	if retVal, err = Cube(y); err != nil {
 		return nil, errors.Wrapf(err, cubeFail)
 	}
-	if retVal, err = HadamardProd(two, retVal); err != nil {
+	if retVal, err = HadamardProd(gradY, retVal); err != nil {
 		return nil, errors.Wrapf(err, hadamardProdFail)
 	}
-	if retVal, err = HadamardDiv(gradY, retVal); err != nil {
+	if retVal, err = HadamardDiv(retVal, two); err != nil {
 		return nil, errors.Wrapf(err, hadamardDivFail)
 	}
 	return Neg(retVal)
@@ -490,21 +490,21 @@ func inverseSqrtDiff(x, y *Node) (err error) {
 		return errors.Wrapf(err, doFail, cb)
 	}
 
-	mul := newElemBinOp(mulOpType, x, y)
-	if d, err = mul.Do(two.boundTo, d); err != nil {
+	mul := newElemBinOp(mulOpType, y, y)
+	if d, err = mul.Do(ydv.d, d); err != nil {
 		return errors.Wrapf(err, doFail, mul)
 	}
 
-	div := newElemBinOp(divOpType, y, x)
-	if d, err = div.Do(ydv.d, d); err != nil {
+	div := newElemBinOp(divOpType, y, two)
+	if d, err = div.Do(d, two.boundTo); err != nil {
 		return errors.Wrapf(err, doFail, div)
 	}
 
 	sub := newElemBinOp(subOpType, x, y)
-	if _, err = sub.Do(xdv.d, d); err != nil {
+	if d, err = sub.Do(xdv.d, d); err != nil {
 		return errors.Wrapf(err, doFail, sub)
 	}
-	return nil
+	return xdv.SetDeriv(d)
 }
 
 func cubeDiffExpr(x, y, gradY *Node) (retVal *Node, err error) {
-- 
2.43.0


From cdbcc22429d52ca61e2548e243768aa29c8b6bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:29 +0000
Subject: [PATCH 010/110] fix: gradients of the outer product

---
 operatorLinAlg.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/operatorLinAlg.go b/operatorLinAlg.go
index 69a4e68..e6b1a13 100644
--- a/operatorLinAlg.go
+++ b/operatorLinAlg.go
@@ -261,8 +261,9 @@ func vecDotDiff(ctx ExecutionContext, transA, transB bool, x, y, z *Node) (err e
 
 func outerProdDiffExpr(transA, transB bool, x, y, z, gradZ *Node) (retVal Nodes, err error) {
 	var dzdx, dzdy *Node
-	if dzdx, err = Mul(x, gradZ); err == nil {
-		if dzdy, err = Mul(y, gradZ); err == nil {
+	// z[i, j] = x[i] * y[j]
+	if dzdx, err = Mul(gradZ, y); err == nil {
+		if dzdy, err = Mul(x, gradZ); err == nil {
 			retVal = Nodes{dzdx, dzdy}
 		} else {
 			return nil, errors.Wrap(err, "Failed to carry Mul()")
@@ -276,16 +277,17 @@ func outerProdDiffExpr(transA, transB bool, x, y, z, gradZ *Node) (retVal Nodes,
 func outerProdDiff(ctx ExecutionContext, transA, transB bool, x, y, z *Node) (err error) {
 	xdv, ydv, zdv := getDV3(x, y, z)
 
-	mul := newElemBinOp(mulOpType, x, z)
-	err = mul.IncrDo(xdv.d, xdv.Value, zdv.d)
-	err = mul.IncrDo(xdv.d, ydv.Value, zdv.d)
+	// z[i, j] = x[i] * y[j]
+	mul := linAlgBinOp{āBinaryOperator: matVecMulOperator}
+	err = mul.IncrDo(xdv.d, zdv.d, ydv.Value)
 	if err = checkErrSetDeriv(err, xdv); err != nil {
 		return errors.Wrapf(err, autodiffFail, x)
 	}
 
-	err = mul.IncrDo(ydv.d, ydv.Value, zdv.d)
+	mul.transA = true
+	err = mul.IncrDo(ydv.d, zdv.d, xdv.Value)
 	if err = checkErrSetDeriv(err, ydv); err != nil {
-		return errors.Wrapf(err, autodiffFail, x)
+		return errors.Wrapf(err, autodiffFail, y)
 	}
 	return
 }
-- 
2.43.0


From 0b63012e64e323293045d4199128a06ac471c364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:48:42 +0000
Subject: [PATCH 011/110] fix: SoftMax gradient uses the same default axis as
 the forward pass

---
 op_softmax.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/op_softmax.go b/op_softmax.go
index 4244c63..216043f 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -96,21 +96,25 @@ func (op *softmaxOp) Do(inputs ...Value) (retVal Value, err error) {
 
 }
 
+// axisOf returns the axis along which the op works for a given input shape.
+func (op *softmaxOp) axisOf(shp tensor.Shape) int {
+	if op.axis != -1 {
+		return op.axis
+	}
+	if shp.IsColVec() || (shp.IsVector() && !shp.IsRowVec()) {
+		return 0
+	}
+
+	return shp.Dims() - 1 // default: last dim
+}
+
 func (op *softmaxOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error) {
 	inputTensor, err := op.checkInput(inputs...)
 	if err != nil {
 		return nil, fmt.Errorf("Can't check Softmax input: %w", err)
 	}
 
-	aShape := inputTensor.Shape()
-	axis := aShape.Dims() - 1 // default: last dim
-
-	if aShape.IsColVec() || (aShape.IsVector() && !aShape.IsRowVec()) {
-		axis = 0
-	}
-	if op.axis != -1 {
-		axis = op.axis
-	}
+	axis := op.axisOf(inputTensor.Shape())
 
 	if !op.isLog {
 		_, err = tensor.SoftMax(inputTensor, axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
@@ -277,11 +281,13 @@ func (op *softmaxDiffOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value,
 		return nil, fmt.Errorf("Can't check SoftmaxDiff input: %w", err)
 	}
 
+	axis := op.axisOf(y.Shape())
+
 	if op.isLog {
-		return tensor.LogSoftMaxB(y, grad, op.axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
+		return tensor.LogSoftMaxB(y, grad, axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
 	}
 
-	return tensor.SoftMaxB(y, grad, op.axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
+	return tensor.SoftMaxB(y, grad, axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
 }
 
 // ensure it complies with the Op interface
-- 
2.43.0


From 5a0eb91ae51d59384273f0e7924b4c75636c9893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:44 +0000
Subject: [PATCH 012/110] fix: automatic gradient of Concat along any axis

---
 op_tensor.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index b2cc9c3..3a1970e 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1124,7 +1124,9 @@ func (op concatOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) erro
 		idv := in.boundTo.(*dualValue)
 		idvd := idv.d.(tensor.Tensor)
 
-		sliced, err := odvd.Slice(S(start, end))
+		slices := make([]tensor.Slice, op.axis+1) // axes before op.axis are not sliced
+		slices[op.axis] = S(start, end)
+		sliced, err := odvd.Slice(slices...)
 		if err != nil {
 			return err
 		}
@@ -1133,8 +1135,18 @@ func (op concatOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) erro
 		// add to odvd
 		switch st := sliced.(type) {
 		case *tensor.Dense:
+			part := st.Materialize().(*tensor.Dense)
+			if part == odvd {
+				part = part.Clone().(*tensor.Dense)
+			}
+			// slicing drops an axis of size 1
+			if err = part.Reshape(in.shape...); err != nil {
+				return errors.Wrapf(err, reshapeFail, in.shape, part.DataSize())
+			}
 			d := idvd.(*tensor.Dense)
-			d.Add(st, tensor.UseUnsafe())
+			if _, err = d.Add(part, tensor.UseUnsafe()); err != nil {
+				return err
+			}
 		default:
 			return errors.Errorf(nyiTypeFail, "DoDiff (hack) ", st)
 		}
-- 
2.43.0


From 5a49bc56cae99c733e9cc1917736ae0a7e9187bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:50:58 +0000
Subject: [PATCH 013/110] fix: automatic gradients of MinBetween and MaxBetween

---
 op_minmaxBetween.go | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/op_minmaxBetween.go b/op_minmaxBetween.go
index 2661827..ce9b74b 100644
--- a/op_minmaxBetween.go
+++ b/op_minmaxBetween.go
@@ -172,14 +172,26 @@ func minmaxAutoDiff(ctx ExecutionContext, a, b *Node, output *Node) (err error)
 	adv, bdv := getDV(a, b)
 	outdv := output.boundTo.(*dualValue)
 
-	eqOp := newElemBinOp(ltOpType, a, b)
+	// the gradient goes to a where a is the output, and to b everywhere else
+	ctx.Device = a.Device()
+	eqOp := newElemBinOp(eqOpType, a, output)
 	eqOp.retSame = true
 	eq := &ExternalOp{
 		Op:               eqOp,
 		ExecutionContext: ctx,
 	}
-	ctx.Device = a.Device()
-	mask, err := eq.Do(adv.Value, outdv.Value)
+	maskA, err := eq.Do(adv.Value, outdv.Value)
+	if err != nil {
+		return errors.Wrap(err, "Unable to get mask")
+	}
+
+	neOp := newElemBinOp(neOpType, a, output)
+	neOp.retSame = true
+	ne := &ExternalOp{
+		Op:               neOp,
+		ExecutionContext: ctx,
+	}
+	maskB, err := ne.Do(adv.Value, outdv.Value)
 	if err != nil {
 		return errors.Wrap(err, "Unable to get mask")
 	}
@@ -207,14 +219,21 @@ func minmaxAutoDiff(ctx ExecutionContext, a, b *Node, output *Node) (err error)
 	mul.Incr = gradA
 
 	var d Value
-	if d, err = mul.Do(gradOut, mask); err != nil {
+	if d, err = mul.Do(gradOut, maskA); err != nil {
 		return errors.Wrapf(err, "IncrDo gradA failed")
 	}
 	adv.SetDeriv(d)
 
-	sub := NewSubOp(b, a, ctx)
-	sub.Incr = gradB
-	if d, err = sub.Do(gradOut, adv.d); err != nil {
+	if gradB, extra, err = b.GradOnDevice(dev, ctx.External); err != nil {
+		return errors.Wrapf(err, gradOnDeviceFail, b, dev)
+	}
+	if extra {
+		defer ctx.PutValue(dev, gradB)
+	}
+
+	mul = NewHadamardProdOp(b, output, ctx)
+	mul.Incr = gradB
+	if d, err = mul.Do(gradOut, maskB); err != nil {
 		return errors.Wrapf(err, "IncrDo gradB failed")
 	}
 	bdv.SetDeriv(d)
-- 
2.43.0


From 19c4da37566cbc877e7002fc025935f7556d34a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:12 +0000
Subject: [PATCH 014/110] fix: automatic gradient of Reshape adds to the
 gradient of its input

---
 op_tensor.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/op_tensor.go b/op_tensor.go
index 3a1970e..cd0741c 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1296,13 +1296,31 @@ func (op reshapeOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 	if grad, err = output.Grad(); err != nil {
 		return
 	}
+	// the gradient of the output keeps its shape: reshape a copy
+	if grad, err = CloneValue(grad); err != nil {
+		return errors.Wrap(err, cloneFail)
+	}
 	T := grad.(tensor.Tensor)
 	if err = T.Reshape(op.from...); err != nil {
 		return
 	}
 	input := inputs[0]
 	dv := input.boundTo.(*dualValue)
-	return dv.SetDeriv(T)
+	if s, ok := dv.d.(Scalar); ok {
+		grad, _ = anyToScalar(T.ScalarValue())
+		add := newEBOByType(addOpType, TypeOf(s), TypeOf(grad))
+		if grad, err = add.Do(s, grad); err != nil {
+			return errors.Wrapf(err, doFail, add)
+		}
+		return dv.SetDeriv(grad)
+	}
+
+	// other users of the input may already have contributed
+	add := newEBOByType(addOpType, TypeOf(dv.d), TypeOf(T))
+	if grad, err = add.UnsafeDo(dv.d, T); err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
+	return dv.SetDeriv(grad)
 }
 
 /* PRIVATE FUNCTIONS */
-- 
2.43.0


From 8b04d5ecaf704f91470d5c82145383b911a9d8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:25 +0000
Subject: [PATCH 015/110] fix: automatic gradient of Pow between tensors and
 scalars

---
 operatorPointwise_binary.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/operatorPointwise_binary.go b/operatorPointwise_binary.go
index ffb03d0..ef8459b 100644
--- a/operatorPointwise_binary.go
+++ b/operatorPointwise_binary.go
@@ -960,11 +960,12 @@ func hadamardPowDiff(ctx ExecutionContext, x, y, z *Node) (err error) {
 		return
 	}
 
-	mul := newEBOByType(mulOpType, TypeOf(ydv.Value), TypeOf(xdv.Value))
-	if pow, err = mul.UnsafeDo(pow, ydv.Value); err != nil {
+	mul := newEBOByType(mulOpType, TypeOf(pow), TypeOf(ydv.Value))
+	if pow, err = mul.Do(pow, ydv.Value); err != nil {
 		return
 	}
 
+	mul = newEBOByType(mulOpType, TypeOf(pow), TypeOf(zdv.d))
 	if err = mul.IncrDo(xdv.d, pow, zdv.d); err != nil {
 		var ver Valuer
 		var ok bool
@@ -981,9 +982,11 @@ func hadamardPowDiff(ctx ExecutionContext, x, y, z *Node) (err error) {
 	if logx, err = logOp.Do(xdv.Value); err != nil {
 		return
 	}
+	mul = newEBOByType(mulOpType, TypeOf(zdv.Value), TypeOf(logx))
 	if logx, err = mul.Do(zdv.Value, logx); err != nil {
 		return
 	}
+	mul = newEBOByType(mulOpType, TypeOf(logx), TypeOf(zdv.d))
 	if err = mul.IncrDo(ydv.d, logx, zdv.d); err != nil {
 		var ver Valuer
 		var ok bool
-- 
2.43.0


From 9d49b88b4b0d2b72371d6df28e09ce5106ddf923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:32 +0000
Subject: [PATCH 016/110] fix: in-place elementwise operations between a scalar
 and a one-element tensor

---
 op_math.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_math.go b/op_math.go
index 72d3648..50c475f 100644
--- a/op_math.go
+++ b/op_math.go
@@ -335,7 +335,7 @@ func (op elemBinOp) UnsafeDo(inputs ...Value) (retVal Value, err error) {
 
 	ashp, bshp := a.Shape(), b.Shape()
 
-	if !ashp.Eq(bshp) && ashp.TotalSize() == bshp.TotalSize() {
+	if !ashp.IsScalar() && !bshp.IsScalar() && !ashp.Eq(bshp) && ashp.TotalSize() == bshp.TotalSize() {
 		// temporarily reshape
 		var toReshape tensor.Tensor = b.(tensor.Tensor)
 		as := a
-- 
2.43.0


From 968a8bce9fa05a7f54823446888f5a1233c4b0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:45 +0000
Subject: [PATCH 017/110] fix: automatic gradient of a scalar combined with
 tensors more than once

---
 op_math.go                  | 26 ++++++++++++++++++++++++++
 operatorPointwise_binary.go |  6 +++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/op_math.go b/op_math.go
index 50c475f..30847c7 100644
--- a/op_math.go
+++ b/op_math.go
@@ -251,6 +251,23 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 		return
 	}
 
+	// a scalar that is combined with a tensor gets the sum of the elementwise contributions.
+	// What it has received so far must not take part in that sum.
+	var received map[*Node]Value
+	for _, in := range inputs {
+		if _, ok := received[in]; ok || !in.IsScalar() || output.IsScalar() {
+			continue
+		}
+		indv := in.boundTo.(*dualValue)
+		if s, ok := indv.d.(Scalar); ok {
+			if received == nil {
+				received = make(map[*Node]Value)
+			}
+			received[in] = s
+			indv.d = zero(s.Dtype())
+		}
+	}
+
 	b := op.ʘBinaryOperator.binOpType()
 	if err = ʘBinOpDiffFns[b](ctx, inputs[0], inputs[1], output); err != nil {
 		if _, ok := err.(AutoDiffError); !ok {
@@ -276,6 +293,15 @@ func (op elemBinOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 			d, _ = anyToScalar(t.ScalarValue())
 			indv.SetDeriv(d)
 		}
+		if r, ok := received[in]; ok {
+			delete(received, in)
+			add := newEBOByType(addOpType, TypeOf(r), TypeOf(indv.d))
+			var d Value
+			if d, err = add.Do(r, indv.d); err != nil {
+				return errors.Wrapf(err, doFail, add)
+			}
+			indv.SetDeriv(d)
+		}
 	}
 	return
 }
diff --git a/operatorPointwise_binary.go b/operatorPointwise_binary.go
index ef8459b..bbcce03 100644
--- a/operatorPointwise_binary.go
+++ b/operatorPointwise_binary.go
@@ -437,7 +437,7 @@ func addDiff(ctx ExecutionContext, x, y, z *Node) (err error) {
 	// set up the op to be executed
 	op := NewAddOp(x, z, ctx)
 	op.Device = x.Device()
-	op.UseUnsafe = true
+	op.UseUnsafe = !x.IsScalar() // a scalar cannot hold the result, and zd must not
 
 	// we'll use the same device as the device the data from the node resides in
 	dev := op.Device
@@ -486,7 +486,7 @@ func addDiff(ctx ExecutionContext, x, y, z *Node) (err error) {
 	// set up the op to be executed for y
 	op = NewAddOp(y, z, ctx)
 	op.Device = y.Device()
-	op.UseUnsafe = true
+	op.UseUnsafe = !y.IsScalar()
 
 	dev = op.Device
 
@@ -630,7 +630,7 @@ func subDiff(ctx ExecutionContext, x, y, z *Node) (err error) {
 		add.Prealloc = xd2
 		defer ctx.Signal()
 	case x.IsScalar() && dev == CPU:
-		if sub.Prealloc, err = makeValue(z.t, zd.Shape()); err != nil {
+		if add.Prealloc, err = makeValue(z.t, zd.Shape()); err != nil {
 			return
 		}
 	}
-- 
2.43.0


From 492942aef9ee4be3bd0f473d06951199c5a36794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:53:57 +0000
Subject: [PATCH 018/110] fix: report a failure to accumulate the gradient of
 Tensordot

---
 op_math.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/op_math.go b/op_math.go
index 30847c7..f124231 100644
--- a/op_math.go
+++ b/op_math.go
@@ -1107,7 +1107,9 @@ func (op tensordotOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) e
 			tensordotPermDense := tensordotPerm.(*tensor.Dense)
 
 			d := idvd.(*tensor.Dense)
-			d.Add(tensordotPermDense, tensor.UseUnsafe()) // TODO: Should output directly into d and save the add
+			if _, err = d.Add(tensordotPermDense, tensor.UseUnsafe()); err != nil { // TODO: Should output directly into d and save the add
+				return err
+			}
 
 		default:
 			return errors.Errorf(nyiTypeFail, "Do Diff (hack)", st)
-- 
2.43.0


From f5f9d196b49adcdcec72890ee05c221831a8e3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:54:10 +0000
Subject: [PATCH 019/110] fix: interpreting machine stops after the first error

---
 vm_genera.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vm_genera.go b/vm_genera.go
index 7c1914b..6999b79 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -269,6 +269,7 @@ func (m *lispMachine) runall(errChan chan error, doneChan chan struct{}) {
 
 	if err != nil {
 		errChan <- err
+		return
 	}
 
 	// send a synchronous signal, do all (if any) CUDA work before continuing with backprop
@@ -289,6 +290,7 @@ backward:
 	}
 	if err != nil {
 		errChan <- err
+		return
 	}
 	doneChan <- struct{}{}
 }
-- 
2.43.0


From 925f72f569aa0ce3e56e6659080cc3542f89b1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:21 +0000
Subject: [PATCH 020/110] fix: accumulate elementwise results into one-element
 tensors without overwriting an operand

---
 operatorPointwise_binary.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operatorPointwise_binary.go b/operatorPointwise_binary.go
index bbcce03..32378bc 100644
--- a/operatorPointwise_binary.go
+++ b/operatorPointwise_binary.go
@@ -330,7 +330,7 @@ func (o tBinOp) UsePreallocDo(v Value, retSame bool, inputs ...Value) (retVal Va
 
 func (o tBinOp) IncrDo(incr Value, retSame bool, inputs ...Value) (err error) {
 	reuse, ok := incr.(tensor.Tensor)
-	if ok {
+	if ok && !reuse.Shape().IsScalarEquiv() { // incrementing a tensor of one element overwrites the left operand
 		_, err = o.do(inputs, tensor.WithIncr(reuse))
 		return
 	}
-- 
2.43.0


From 32c2037811727ef7bc67ec7538f328337c6823f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:30 +0000
Subject: [PATCH 021/110] fix: gradients of an output do not include gradients
 found for another output

---
 differentiation.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/differentiation.go b/differentiation.go
index 3dd4655..67b465c 100644
--- a/differentiation.go
+++ b/differentiation.go
@@ -217,9 +217,10 @@ func Backpropagate(outputs, gradOutputs, wrt Nodes) (retVal Nodes, err error) {
 		}
 
 		if node.deriv != nil {
-			symdiffLogf("skipping %x - previously differentiated", node.ID())
-			nodeGradMap[node] = append(nodeGradMap[node], node.deriv)
-			continue
+			// that derivative is of other outputs: it takes no part in this one
+			symdiffLogf("%x - previously differentiated", node.ID())
+			node.deriv.derivOf = node.deriv.derivOf.remove(node)
+			node.deriv = nil
 		}
 
 		symdiffLogf("Working on %x %v", node.ID(), node)
-- 
2.43.0


From 57a2a582e643a9fcdc6aef1f16e2be31ac5918ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:41 +0000
Subject: [PATCH 022/110] fix: slice increment depends on the increment, and
 starts from zero when it reuses memory

---
 op_tensor.go | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index cd0741c..dec95b1 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -574,7 +574,7 @@ func (op *sliceOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err
 
 	// var d Value
 	incrOp := sliceIncrOp{op}
-	if _, err = incrOp.UsePreallocDo(xdv.d, xdv.d, ydv.d); err != nil {
+	if _, err = incrOp.incr(xdv.d, ydv.d); err != nil {
 		return errors.Wrapf(err, doFail, incrOp)
 	}
 
@@ -711,7 +711,7 @@ func (op sliceIncrOp) DiffWRT(i int) []bool {
 		panic(err)
 	}
 
-	return []bool{true, false}
+	return []bool{false, true} // only the shape of the first input matters
 }
 
 func (op sliceIncrOp) SymDiff(inputs Nodes, outputNode, gradNode *Node) (retVal Nodes, err error) {
@@ -719,19 +719,13 @@ func (op sliceIncrOp) SymDiff(inputs Nodes, outputNode, gradNode *Node) (retVal
 	if slicedRes, err = ApplyOp(op.sliceOp, gradNode); err != nil {
 		return nil, errors.Wrap(err, operationError)
 	}
-	retVal = Nodes{gradNode, slicedRes}
+	retVal = Nodes{nil, slicedRes}
 
 	return
 }
 
 func (op sliceIncrOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err error) {
-	xdv, ydv, zdv := getDV3(inputs[0], inputs[1], output)
-
-	// dzdx
-	add := newElemBinOp(addOpType, inputs[0], output)
-	if _, err = add.UnsafeDo(xdv.d, zdv.d); err != nil {
-		return errors.Wrapf(err, unsafeDoFail, add)
-	}
+	ydv, zdv := getDV(inputs[1], output)
 
 	// dzdy
 	var d Value
@@ -739,11 +733,11 @@ func (op sliceIncrOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (
 		return errors.Wrapf(err, doFail, op)
 	}
 
-	add = newElemBinOp(addOpType, inputs[1], output)
-	if _, err = add.UnsafeDo(ydv.d, d); err != nil {
+	add := newElemBinOp(addOpType, inputs[1], output)
+	if d, err = add.UnsafeDo(ydv.d, d); err != nil {
 		return errors.Wrapf(err, doFail, add)
 	}
-	return
+	return ydv.SetDeriv(d)
 }
 
 func (op sliceIncrOp) Do(inputs ...Value) (retVal Value, err error) {
@@ -796,15 +790,22 @@ func (op sliceIncrOp) UsePreallocDo(prealloc Value, inputs ...Value) (retVal Val
 	if err = checkArity(op, len(inputs)); err != nil {
 		return
 	}
-	incr := inputs[1]
+	// the memory may hold anything
+	if T, ok := prealloc.(*tensor.Dense); ok {
+		T.Zero()
+	}
+	return op.incr(prealloc, inputs[1])
+}
 
+// incr adds incr to the slice of dest.
+func (op sliceIncrOp) incr(dest, incr Value) (retVal Value, err error) {
 	// prep the slices
 	slices := make([]tensor.Slice, op.d)
 	if !op.all() {
 		slices[op.along] = op
 	}
 
-	switch T := prealloc.(type) {
+	switch T := dest.(type) {
 	case *tensor.Dense:
 		var v tensor.Tensor
 		if v, err = T.Slice(slices...); err != nil {
@@ -822,7 +823,7 @@ func (op sliceIncrOp) UsePreallocDo(prealloc Value, inputs ...Value) (retVal Val
 	case Scalar:
 		return nil, errors.New("Cannot slice a scalar value")
 	default:
-		return nil, errors.Errorf(nyiFail, "sliceIncrOp()", prealloc)
+		return nil, errors.Errorf(nyiFail, "sliceIncrOp()", dest)
 	}
 	return
 }
-- 
2.43.0


From f9bb22b60427202158ff1f971fdb706bb7ab80b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:54 +0000
Subject: [PATCH 023/110] fix: differentiating SoftMax twice is refused instead
 of panicking

---
 op_softmax.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/op_softmax.go b/op_softmax.go
index 216043f..da16a89 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -290,6 +290,19 @@ func (op *softmaxDiffOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value,
 	return tensor.SoftMaxB(y, grad, axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
 }
 
+// DiffWRT is an implementation for the SDOp interface
+func (op *softmaxDiffOp) DiffWRT(inputs int) []bool { return []bool{true, true, true} }
+
+// SymDiff is an implementation for the SDOp interface. The derivative of softmax is not differentiable again.
+func (op *softmaxDiffOp) SymDiff(inputs Nodes, output, grad *Node) (Nodes, error) {
+	return nil, errors.Errorf(nyiFail, "SymDiff", op)
+}
+
+// DoDiff is an implementation for the ADOp interface. The derivative of softmax is not differentiable again.
+func (op *softmaxDiffOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) error {
+	return errors.Errorf(nyiFail, "DoDiff", op)
+}
+
 // ensure it complies with the Op interface
 var (
 	_ Op   = &softmaxOp{}
-- 
2.43.0


From cacd5ba95c68ca29bf3f91b8c0624b63e021ce59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:51 +0000
Subject: [PATCH 024/110] fix: reshaping to the scalar shape gives a scalar

---
 op_tensor.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/op_tensor.go b/op_tensor.go
index dec95b1..1f01237 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1211,8 +1211,14 @@ func (op reshapeOp) Do(vals ...Value) (Value, error) {
 		if err := val.(tensor.Tensor).Reshape(op.to...); err != nil {
 			return nil, err
 		}
+		if op.to.IsScalar() {
+			val, _ = anyToScalar(val.(tensor.Tensor).ScalarValue())
+		}
 		return val, nil
 	case Scalar:
+		if op.to.IsScalar() {
+			return CloneValue(vals[0])
+		}
 		v0 := ScalarAsTensor(vals[0], op.to.Dims(), nil)
 		if err := v0.(tensor.Tensor).Reshape(op.to...); err != nil {
 			return nil, err
-- 
2.43.0


From 1c1a2f2398573dfdaef24511a3ec22fb29b56e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:07 +0000
Subject: [PATCH 025/110] fix: Let checks the shape and type of plain Go values
 too

---
 gorgonia.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gorgonia.go b/gorgonia.go
index 73e340e..534ed93 100644
--- a/gorgonia.go
+++ b/gorgonia.go
@@ -291,7 +291,7 @@ func UnsafeLet(n *Node, be interface{}) error {
 			return errors.Wrapf(err, anyToValueFail, be, be)
 		}
 
-		n.bind(val)
+		return UnsafeLet(n, val)
 	}
 	return nil
 }
-- 
2.43.0


From 25f44c2994a58092469844108be1aa5254d72bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:19 +0000
Subject: [PATCH 026/110] fix: resetting the interpreting machine starts again
 from the first node

---
 vm_genera.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm_genera.go b/vm_genera.go
index 6999b79..c0bcc9b 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -108,7 +108,7 @@ func (m *lispMachine) allowSetRootGrad()    { m.runFlags |= uint16(1) << spare3
 func (m *lispMachine) disallowSetRootGrad() { m.runFlags &= (^(uint16(1) << spare3)) }
 
 func (m *lispMachine) Reset() {
-	m.fwd = len(m.sorted) - 1
+	m.fwd = 0
 	m.bwd = len(m.q) - 1
 }
 
-- 
2.43.0


From 47d42e23fdb7dfd027e93d822ae48947597c1ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:15:02 +0000
Subject: [PATCH 027/110] fix: automatic gradient of SoftMax must not replace
 the gradient of its output

---
 op_softmax.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/op_softmax.go b/op_softmax.go
index da16a89..087f0c8 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -152,9 +152,7 @@ func (op *softmaxOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) er
 		return err
 	}
 
-	odv.d = sum
-
-	return nil
+	return idv.SetDeriv(sum)
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From 751553b639e6e3203140b9db88ded97e7a4b3b8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:10 +0000
Subject: [PATCH 028/110] fix: unbinding the interpreting machine must not
 recycle the values of constants

---
 vm_genera.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vm_genera.go b/vm_genera.go
index c0bcc9b..36b2888 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -194,7 +194,7 @@ func (m *lispMachine) UnbindAll() {
 	// if m.dealloc() {
 	for _, n := range m.sorted {
 		m.logf("dealloc n; %v %x %p", n, n.Hashcode(), n)
-		if !n.isInput() {
+		if !n.isInput() && !n.isConstant() {
 			n.unbind()
 		}
 	}
-- 
2.43.0


From e4f9ccea53012fd657ee0b54dab630c836ddaecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:21 +0000
Subject: [PATCH 029/110] fix: automatic gradient of Sum must not reshape the
 gradient of its output

---
 op_reduction.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/op_reduction.go b/op_reduction.go
index 8ae9339..87826a3 100644
--- a/op_reduction.go
+++ b/op_reduction.go
@@ -276,6 +276,8 @@ func (op sumOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err er
 			for _, a := range op.along {
 				newShape[a] = 1
 			}
+			oldShape := ydvd.Shape().Clone()
+			defer ydvd.Reshape(oldShape...) // the gradient of the output keeps its shape
 			ydvd.Reshape(newShape...)
 		}
 
-- 
2.43.0


From 4bf3c85a11c94d0064b2251e5e78e3099f3e02ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:43 +0000
Subject: [PATCH 030/110] fix: LogSumExp computes log(sum(exp(a-max)))+max for
 every rank

---
 operations.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/operations.go b/operations.go
index a437d36..cff22c7 100644
--- a/operations.go
+++ b/operations.go
@@ -170,13 +170,16 @@ func LogSumExp(a *Node, axis int) (retVal *Node, err error) {
 	if max, err = Max(a, axis); err != nil {
 		return nil, errors.Wrap(err, operationError)
 	}
-	if retVal, err = Sub(a, max); err == nil {
+	if max.IsScalar() {
+		retVal, err = Sub(a, max)
+	} else {
+		retVal, err = BroadcastSub(a, max, nil, []byte{byte(axis)})
+	}
+	if err == nil {
 		if exp, err = Exp(retVal); err == nil {
 			if sum, err = Sum(exp, axis); err == nil {
-				if sum, err = Add(sum, max); err == nil {
-					if logSum, err = Log(sum); err == nil {
-						return Sum(logSum, axis)
-					}
+				if logSum, err = Log(sum); err == nil {
+					return Add(logSum, max)
 				}
 			}
 		}
-- 
2.43.0


From 63507987cd4254d0f13ae27306dc9594b8012feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:54 +0000
Subject: [PATCH 031/110] fix: Norm takes absolute values for odd p

---
 operations.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/operations.go b/operations.go
index cff22c7..00c047a 100644
--- a/operations.go
+++ b/operations.go
@@ -312,6 +312,12 @@ func Norm(a *Node, axis, p int) (retVal *Node, err error) {
 		return nil, errors.New("Cannot norm a non-floating point type")
 	}
 
+	if p%2 != 0 {
+		if a, err = Abs(a); err != nil {
+			return nil, errors.Wrap(err, operationError)
+		}
+	}
+
 	if retVal, err = Pow(a, b); err == nil {
 		if retVal, err = Sum(retVal, axis); err == nil {
 			if retVal, err = Pow(retVal, inv); err != nil {
-- 
2.43.0


From f1f1f7d8fa911402b6b93cfa1dde2949fa91c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:30:34 +0000
Subject: [PATCH 032/110] fix: KeepDims pads results whose shape is a vector
 equal to a row or column input

---
 shape.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shape.go b/shape.go
index df3f76d..7976d65 100644
--- a/shape.go
+++ b/shape.go
@@ -84,11 +84,11 @@ func KeepDims(a *Node, expandLeft bool, fn func(a *Node) (*Node, error)) (*Node,
 
 	// happy path = quick exit
 	newShape := b.Shape()
-	if newShape.Eq(oshape) {
+	bdims := newShape.Dims()
+	if bdims == adims && newShape.Eq(oshape) {
 		return b, nil
 	}
 
-	bdims := newShape.Dims()
 	diff := adims - bdims
 	if diff < 0 {
 		return b, errors.Errorf("Unable to KeepDims for a result with shape %v. It has more dimensions than input %v", newShape, oshape)
-- 
2.43.0


From 3801cba4b19c1e35d190b8511de494093686e06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:31:36 +0000
Subject: [PATCH 033/110] fix: reductions along inner axes of tensors with more
 than three dimensions

---
 op_reduction.go | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/op_reduction.go b/op_reduction.go
index 87826a3..88f55a8 100644
--- a/op_reduction.go
+++ b/op_reduction.go
@@ -11,6 +11,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"hash"
+	"sort"
 	"strings"
 
 	"github.com/chewxy/hm"
@@ -75,7 +76,7 @@ func reductionDo(op Op, s string, f func(*tensor.Dense, ...int) (*tensor.Dense,
 	switch t := at.(type) {
 	case *tensor.Dense:
 		var ret *tensor.Dense
-		if ret, err = f(t, along...); err == nil {
+		if ret, err = reduceDense(t, f, along); err == nil {
 			if ret.IsScalar() {
 				retVal, _ = anyToScalar(ret.ScalarValue())
 			} else {
@@ -98,6 +99,33 @@ func reductionDo(op Op, s string, f func(*tensor.Dense, ...int) (*tensor.Dense,
 
 }
 
+// reduceDense applies the reduction f along the given axes.
+//
+// The reductions of the tensor package mishandle the inner axes of tensors with more than three dimensions,
+// so those are reduced one axis at a time, with the axes on either side flattened.
+func reduceDense(t *tensor.Dense, f func(*tensor.Dense, ...int) (*tensor.Dense, error), along []int) (ret *tensor.Dense, err error) {
+	along = append([]int(nil), along...) // the tensor package sorts the axes in place
+	shape := t.Shape().Clone()
+	if shape.Dims() <= 3 || len(along) == 0 || len(along) == shape.Dims() {
+		return f(t, along...)
+	}
+
+	ret = t.Materialize().(*tensor.Dense)
+	sort.Ints(along)
+	for i := len(along) - 1; i >= 0; i-- {
+		axis := along[i]
+		flat := ret.ShallowClone()
+		if err = flat.Reshape(shape[:axis].TotalSize(), shape[axis], shape[axis+1:].TotalSize()); err != nil {
+			return nil, err
+		}
+		if ret, err = f(flat, 1); err != nil {
+			return nil, err
+		}
+		shape = append(shape[:axis:axis], shape[axis+1:]...)
+	}
+	return ret, nil
+}
+
 type maxOp struct {
 	along axes
 	d     int
-- 
2.43.0


From 2bf65b55536c79485d93c69159e10ba18ff67e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:04 +0000
Subject: [PATCH 034/110] fix: Slice with steps that select one element or do
 not divide the range, and ranges beyond the extent

---
 operations.go | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/operations.go b/operations.go
index 00c047a..6580ff4 100644
--- a/operations.go
+++ b/operations.go
@@ -433,15 +433,36 @@ func Slice(n *Node, slices ...tensor.Slice) (retVal *Node, err error) {
 	retVal = n
 	var dimsChanged int
 	for i, s := range slices {
-		var along int
-		if i > 0 {
-			if prev := slices[i-1]; prev != nil {
-				if prev.End()-prev.Start() == 1 {
-					dimsChanged++
+		along := i - dimsChanged
+		if s != nil {
+			size := retVal.shape[along]
+			var start, end, step int
+			if start, end, step, err = tensor.SliceDetails(s, size); err != nil {
+				return nil, errors.Wrapf(err, "Cannot slice axis %d of shape %v", i, n.shape)
+			}
+			if step < 1 {
+				step = 1
+			}
+			selected := (end - start + step - 1) / step
+
+			switch {
+			case selected == 1:
+				// a single element is selected, whatever the step. The axis is removed
+				s = S(start)
+				dimsChanged++
+			case along == 0 && (end-start)%step != 0:
+				// on the first axis the tensor package leaves out the last element of such a range
+				if retVal, err = Reshape(retVal, append(tensor.Shape{1}, retVal.shape...)); err != nil {
+					return nil, errors.Wrap(err, operationError)
+				}
+				if retVal, err = ApplyOp(newSliceOp(S(start, end, step), 1, retVal.Dims()), retVal); err != nil {
+					return nil, errors.Wrap(err, operationError)
 				}
+				s = S(0)
+			case end != s.End():
+				s = S(start, end, step)
 			}
 		}
-		along = i - dimsChanged
 
 		op := newSliceOp(s, along, retVal.Dims())
 		if retVal, err = ApplyOp(op, retVal); err != nil {
-- 
2.43.0


From 6a1fb760ddf7dac570f4f756aaea054212b13da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:16 +0000
Subject: [PATCH 035/110] fix: ByIndices selects and differentiates along every
 axis, on both machines

---
 op_by_indices.go | 94 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 71 insertions(+), 23 deletions(-)

diff --git a/op_by_indices.go b/op_by_indices.go
index 79a838f..2d005f9 100644
--- a/op_by_indices.go
+++ b/op_by_indices.go
@@ -3,6 +3,7 @@ package gorgonia
 import (
 	"fmt"
 	"hash"
+	"reflect"
 
 	"github.com/chewxy/hm"
 	"github.com/pkg/errors"
@@ -92,7 +93,38 @@ func (op *byIndicesOp) Do(inputs ...Value) (Value, error) {
 		return nil, fmt.Errorf("Can't check ByIndicesOp input: %w", err)
 	}
 
-	return tensor.ByIndices(inputTensor, indices, op.axis)
+	in, ok := inputTensor.(*tensor.Dense)
+	if !ok {
+		return tensor.ByIndices(inputTensor, indices, op.axis)
+	}
+
+	// tensor.ByIndices only handles the first and the last axis in general
+	in = in.Materialize().(*tensor.Dense)
+	shp := in.Shape().Clone()
+	outer, size, inner := shp[:op.axis].TotalSize(), shp[op.axis], shp[op.axis+1:].TotalSize()
+	selected := op.selected(indices, size)
+	shp[op.axis] = len(selected)
+	output := tensor.New(tensor.Of(in.Dtype()), tensor.WithShape(shp...), tensor.WithEngine(in.Engine()))
+	from, to := reflect.ValueOf(in.Data()), reflect.ValueOf(output.Data())
+	for o := 0; o < outer; o++ {
+		for i, idx := range selected {
+			src := (o*size + idx) * inner
+			dst := (o*len(selected) + i) * inner
+			reflect.Copy(to.Slice(dst, dst+inner), from.Slice(src, src+inner))
+		}
+	}
+	return output, nil
+}
+
+// selected lists the indices. Those that are not indices of the axis select the first element.
+func (op *byIndicesOp) selected(indices tensor.Tensor, size int) []int {
+	retVal := append([]int(nil), indices.Data().([]int)...)
+	for i, idx := range retVal {
+		if idx < 0 || idx >= size {
+			retVal[i] = 0
+		}
+	}
+	return retVal
 }
 
 // DoDiff calculates the diff and sets its value to the output node. Implementation for ADOp interface.
@@ -101,29 +133,25 @@ func (op *byIndicesOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node)
 		return fmt.Errorf("byIndicesOp.DoDiff needs 2 arguments")
 	}
 
-	odv := output.boundTo.(*dualValue)
-	odvd := odv.Value.(tensor.Tensor)
+	xdv, odv := getDV(inputs[0], output)
+	indices := inputs[1].boundTo
+	if idv, ok := indices.(*dualValue); ok {
+		indices = idv.Value
+	}
 
 	diffOp := &byIndicesOpDiffOp{op}
 
-	result, err := diffOp.Do(inputs[0].boundTo, inputs[1].boundTo)
-	if err != nil {
-		return err
-	}
-
-	err = result.(*tensor.Dense).Reshape(odvd.Shape()...)
+	result, err := diffOp.Do(xdv.Value, odv.d, indices)
 	if err != nil {
 		return err
 	}
 
-	sum, err := odvd.(*tensor.Dense).Add(result.(*tensor.Dense), tensor.UseUnsafe())
+	sum, err := tensor.Add(xdv.d.(tensor.Tensor), result.(tensor.Tensor), tensor.UseUnsafe())
 	if err != nil {
 		return err
 	}
 
-	odv.d = sum
-
-	return nil
+	return xdv.SetDeriv(sum)
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
@@ -188,7 +216,7 @@ func (op *byIndicesOpDiffOp) Type() hm.Type {
 
 func (op *byIndicesOpDiffOp) OverwritesInput() int { return -1 }
 
-func (op *byIndicesOpDiffOp) checkInput(inputs ...Value) (in, indices, gradient *tensor.Dense, err error) {
+func (op *byIndicesOpDiffOp) checkInput(inputs ...Value) (in, gradient, indices *tensor.Dense, err error) {
 	if err := checkArity(op, len(inputs)); err != nil {
 		return nil, nil, nil, err
 	}
@@ -208,25 +236,25 @@ func (op *byIndicesOpDiffOp) checkInput(inputs ...Value) (in, indices, gradient
 		return nil, nil, nil, errors.Errorf("input type is not supported, got %T", inputs[0])
 	}
 
-	switch t := inputs[2].(type) {
+	switch t := inputs[1].(type) {
 	case *dualValue:
 		if gradient, ok = t.Value.(*tensor.Dense); !ok {
-			return nil, nil, nil, errors.Errorf("gradient should be a tensor, got %T", inputs[2])
+			return nil, nil, nil, errors.Errorf("gradient should be a tensor, got %T", inputs[1])
 		}
 	case *tensor.Dense:
 		gradient = t
 	default:
-		return nil, nil, nil, errors.Errorf("gradient type is not supported, got %T", inputs[2])
+		return nil, nil, nil, errors.Errorf("gradient type is not supported, got %T", inputs[1])
 	}
 
-	switch t := inputs[1].(type) {
+	switch t := inputs[2].(type) {
 	case *tensor.Dense:
 		indices = t
 	default:
-		return nil, nil, nil, errors.Errorf("indices type %T is not supported", inputs[1])
+		return nil, nil, nil, errors.Errorf("indices type %T is not supported", inputs[2])
 	}
 
-	return in, indices, gradient, nil
+	return in, gradient, indices, nil
 }
 
 func (op *byIndicesOpDiffOp) Do(inputs ...Value) (Value, error) {
@@ -235,9 +263,29 @@ func (op *byIndicesOpDiffOp) Do(inputs ...Value) (Value, error) {
 		return nil, fmt.Errorf("Can't check ByIndicesOpDiff input: %w", err)
 	}
 
-	output, err := tensor.ByIndicesB(inputTensor, gradTensor, indices, op.axis)
-	if err != nil {
-		return nil, err
+	// the gradient of every selected element is added to the element it was selected from
+	shp := inputTensor.Shape()
+	outer, size, inner := shp[:op.axis].TotalSize(), shp[op.axis], shp[op.axis+1:].TotalSize()
+	selected := op.selected(indices, size)
+	output := tensor.New(tensor.Of(inputTensor.Dtype()), tensor.WithShape(shp.Clone()...), tensor.WithEngine(inputTensor.Engine()))
+	gradTensor = gradTensor.Materialize().(*tensor.Dense)
+	for o := 0; o < outer; o++ {
+		for i, idx := range selected {
+			src := (o*len(selected) + i) * inner
+			dst := (o*size + idx) * inner
+			switch out := output.Data().(type) {
+			case []float64:
+				for j, g := range gradTensor.Data().([]float64)[src : src+inner] {
+					out[dst+j] += g
+				}
+			case []float32:
+				for j, g := range gradTensor.Data().([]float32)[src : src+inner] {
+					out[dst+j] += g
+				}
+			default:
+				return nil, errors.Errorf(nyiTypeFail, "byIndicesOpDiffOp.Do()", inputTensor)
+			}
+		}
 	}
 
 	return output, nil
-- 
2.43.0


From d8aa32c1d3ff0b77eeb1baab9c2fdc4cea0ad39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:37:26 +0000
Subject: [PATCH 036/110] fix: At is an expression, its value is kept

---
 op_tensor.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 1f01237..07ec1e8 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -65,8 +65,6 @@ func (op atOp) WriteHash(h hash.Hash) {
 
 func (op atOp) Hashcode() uint32 { return simpleHash(op) }
 
-func (op atOp) isStmt() bool { return true }
-
 type sizeOp struct {
 	axis, d int
 	val     int // if we know ahead of time what the size is...
-- 
2.43.0


From e46a0a0f2c1a59229e1c6d24d06c47d388c25b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:39:07 +0000
Subject: [PATCH 037/110] fix: Unconcat keeps the split axis when the parts
 have one element along it

---
 operations.go | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/operations.go b/operations.go
index 6580ff4..5b43c3d 100644
--- a/operations.go
+++ b/operations.go
@@ -533,11 +533,11 @@ func Concat(axis int, ns ...*Node) (retVal *Node, err error) {
 // TODO: port this back to Gorgonia and use Gorgonia's sli instead
 func Unconcat(a *Node, along int, n int) (Nodes, error) {
 	aShape := a.Shape()
-	if along < 0 || along > aShape.Dims() {
+	if along < 0 || along >= aShape.Dims() {
 		return nil, errors.Errorf("Unable to Unconcat a of shape %v along axis %d", aShape, along)
 	}
 
-	if aShape[along]%n != 0 {
+	if n < 1 || aShape[along]%n != 0 {
 		return nil, errors.Errorf("Axis %d of %v cannot be nicely split into %d parts", along, aShape, n)
 	}
 
@@ -548,18 +548,20 @@ func Unconcat(a *Node, along int, n int) (Nodes, error) {
 	var retVal Nodes
 	for i := 0; i < batches; i++ {
 		ss := make([]tensor.Slice, len(aShape))
-		for i := range ss {
-			if i == along {
-				ss[i] = S(start, start+newShapeAlong)
-			} else {
-				ss[i] = S(0, aShape[i])
-			}
-		}
+		ss[along] = S(start, start+newShapeAlong)
 
 		a2, err := Slice(a, ss...)
 		if err != nil {
 			return nil, errors.Wrapf(err, "Unable to slice a of shape %v along %d on batch %d. Slices were: %v", aShape, along, i, ss)
 		}
+		if newShapeAlong == 1 {
+			// slicing has removed the axis
+			newShape := aShape.Clone()
+			newShape[along] = 1
+			if a2, err = Reshape(a2, newShape); err != nil {
+				return nil, errors.Wrapf(err, "Unable to keep axis %d of %v on batch %d", along, aShape, i)
+			}
+		}
 		retVal = append(retVal, a2)
 		start += newShapeAlong
 	}
-- 
2.43.0


From 7720dbde1e500509fd51e8d6349b05230d6d27aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:26 +0000
Subject: [PATCH 038/110] fix: Tensordot and its gradients for every choice of
 axes and extents of one

---
 op_math.go | 470 ++++++++++++++++++++---------------------------------
 1 file changed, 175 insertions(+), 295 deletions(-)

diff --git a/op_math.go b/op_math.go
index f124231..ce97abd 100644
--- a/op_math.go
+++ b/op_math.go
@@ -922,7 +922,7 @@ func (op tensordotOp) Do(vals ...Value) (Value, error) {
 		return nil, errors.Wrap(err, "tensordot - valuesToTensors failed")
 	}
 
-	return tensor.Contract(ts[0], ts[1], op.aAxes, op.bAxes)
+	return contractDense(ts[0], ts[1], ts[0].Shape(), ts[1].Shape(), op.aAxes, op.bAxes)
 }
 
 func (op tensordotOp) ReturnsPtr() bool { return true }
@@ -946,177 +946,176 @@ func (op tensordotOp) String() string {
 
 func (op tensordotOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) error {
 	odv := output.boundTo.(*dualValue)
-	odvd := odv.d.(tensor.Tensor)
-
-	for inNr, in := range inputs {
-		// abuse of language below: "i" up front will refer to current "in"
-		// "other" for the other input (there are only two)
-
-		// Who's derivative are we calculating?
-		var iAxes []int
-		var otherAxes []int
-		var otherdv *dualValue
-		var iWasFirstArgument bool
-
-		if 0 == inNr {
-			iAxes = op.aAxes
-			otherAxes = op.bAxes
-			otherdv = inputs[1].boundTo.(*dualValue)
-			iWasFirstArgument = true
-		} else {
-			iAxes = op.bAxes
-			otherAxes = op.aAxes
-			otherdv = inputs[0].boundTo.(*dualValue)
-			iWasFirstArgument = false
-		}
-
-		idv := in.boundTo.(*dualValue)
-		idvd := idv.d.(tensor.Tensor)
+	advs, bdvs := inputs[0].boundTo.(*dualValue), inputs[1].boundTo.(*dualValue)
+	aShape, bShape := inputs[0].Shape(), inputs[1].Shape()
 
-		otherdvv := otherdv.Value.(tensor.Tensor)
+	var grad tensor.Tensor
+	switch d := odv.d.(type) {
+	case tensor.Tensor:
+		grad = d
+	case Scalar:
+		grad = tensor.New(tensor.FromScalar(d.Data()))
+	default:
+		return errors.Errorf(nyiTypeFail, "Do Diff (hack)", odv.d)
+	}
 
-		// Below a tensordot will be performed: Its output axes will be in the wrong order w.r.t to the input.
-		// What is the correct permutation/pattern?
-		iAxesCoSorted := make([]int, len(iAxes))
-		for index, value := range iAxes {
-			iAxesCoSorted[index] = value
-		}
+	ts, err := valuesToTensors([]Value{advs.Value, bdvs.Value, advs.d, bdvs.d})
+	if err != nil {
+		return errors.Wrap(err, "tensordot - valuesToTensors failed")
+	}
+	a, b := ts[0], ts[1]
 
-		otherAxesSorted := make([]int, len(otherAxes))
-		for index, value := range otherAxes {
-			otherAxesSorted[index] = value
-		}
+	gradShape := append(freeShape(aShape, op.aAxes), freeShape(bShape, op.bAxes)...)
+	gradA, gradB := op.gradAxes(aShape, bShape)
 
-		sortUniqueIntWithImitator(otherAxesSorted, iAxesCoSorted)
-		pattern := make([]int, len(in.Shape()))
-		counter := len(iAxes)
-
-		for patternIndex := 0; patternIndex < len(pattern); patternIndex++ {
-			iAxesCoSortedIndex := contains(iAxesCoSorted, patternIndex)
-			if 0 <= iAxesCoSortedIndex {
-				pattern[patternIndex] = iAxesCoSortedIndex
-			} else {
-				pattern[patternIndex] = counter
-				counter++
-			}
-		}
-		// if the shape is scalar equivalent, then we'll not have any transforms
-		if in.Shape().IsScalarEquiv() {
-			pattern = pattern[:0]
-		}
+	// both derivatives are computed before either is accumulated: a and b may be the same node
+	da, err := contractDense(grad, b, gradShape, bShape, gradB, freeAxes(bShape, op.bAxes))
+	if err != nil {
+		return err
+	}
+	db, err := contractDense(a, grad, aShape, gradShape, freeAxes(aShape, op.aAxes), gradA)
+	if err != nil {
+		return err
+	}
 
-		// Which axes of the other tensor and the output should be contracted?
-		// Other tensor: All axes that weren't contracted (with i ;-) ) in the original tensordot
-		// With the exception of scalars
-		dOtherAxes := make([]int, otherdvv.Dims())
+	patternA, patternB := op.patterns(aShape, bShape)
+	if err = addTransposed(ts[2], da, patternA); err != nil {
+		return err
+	}
+	return addTransposed(ts[3], db, patternB)
+}
 
-		if !otherdvv.Shape().IsScalarEquiv() {
-			var dOtherAxesIndex int
+// gradAxes returns the axes of the output that come from the first and from the second input.
+func (op tensordotOp) gradAxes(aShape, bShape tensor.Shape) (fromA, fromB []int) {
+	na := len(freeAxes(aShape, op.aAxes))
+	nb := len(freeAxes(bShape, op.bAxes))
+	return intRange(0, na), intRange(na, na+nb)
+}
 
-			for axis := 0; axis < otherdvv.Dims(); axis++ {
-				if 0 > contains(otherAxes, axis) {
-					dOtherAxes[dOtherAxesIndex] = axis
-					dOtherAxesIndex++
-				}
+// patterns returns the transpositions that bring (output gradient × b) in the order of the axes of a,
+// and (a × output gradient) in the order of the axes of b.
+func (op tensordotOp) patterns(aShape, bShape tensor.Shape) (patternA, patternB []int) {
+	// rank returns how many of the axes come before axis
+	rank := func(axis int, axes []int) (retVal int) {
+		for _, a := range axes {
+			if a < axis {
+				retVal++
 			}
-
-			dOtherAxes = dOtherAxes[0:dOtherAxesIndex]
 		}
+		return
+	}
 
-		// Output: All axes which belong to other in the output of original tensordot, so this depends on input ordering
-		dOutputAxes := make([]int, len(dOtherAxes))
-		if iWasFirstArgument {
-			outputOtherAxesStart := odvd.Dims() - len(dOtherAxes)
-
-			for axis := 0; axis < len(dOtherAxes); axis++ {
-				dOutputAxes[axis] = outputOtherAxesStart + axis
-			}
+	freeA, freeB := freeAxes(aShape, op.aAxes), freeAxes(bShape, op.bAxes)
+	for i := range aShape {
+		if j := contains(op.aAxes, i); j >= 0 {
+			patternA = append(patternA, len(freeA)+rank(op.bAxes[j], op.bAxes))
 		} else {
-			for axis := 0; axis < len(dOtherAxes); axis++ {
-				dOutputAxes[axis] = axis
-			}
+			patternA = append(patternA, rank(i, freeA))
 		}
+	}
+	for i := range bShape {
+		if j := contains(op.bAxes, i); j >= 0 {
+			patternB = append(patternB, rank(op.aAxes[j], op.aAxes))
+		} else {
+			patternB = append(patternB, len(op.aAxes)+rank(i, freeB))
+		}
+	}
+	return
+}
 
-		// perform tensordot
-		switch st := odvd.(type) {
-		case *tensor.Dense:
-
-			otherdvvDense := otherdvv.(*tensor.Dense)
-			odvdDense := odvd.(*tensor.Dense)
-			var tensordot *tensor.Dense
-			var err error
-
-			switch {
-			case odvdDense.Shape().IsScalarEquiv():
-				tensordot, err = otherdvvDense.MulScalar(odvdDense, true)
-			case otherdvvDense.IsVector() && odvdDense.IsVector() && 0 == len(dOtherAxes): // TensorMul does not support creating matrix from two vectors
-				// Reformat vectors, so that MatMul will create a matrix from them
-				var otherdvvDenseShapeOld tensor.Shape
-				var odvdDenseShapeOld tensor.Shape
-
-				otherdvvDenseReshaped := false
-				if !otherdvvDense.IsColVec() {
-					otherdvvDenseShapeOld = otherdvvDense.Shape().Clone()
-
-					otherdvvVecDims, err := (otherdvvDense.AP.Shape()).DimSize(0)
-					if err != nil {
-						return err
-					}
-
-					otherdvvDenseReshaped = true
-					otherdvvDense.Reshape(otherdvvVecDims, 1)
-				}
-
-				odvdDenseReshaped := false
-				if !odvdDense.IsRowVec() {
-					odvdDenseShapeOld = odvdDense.Shape().Clone()
-					odvdDenseVecDims, err := (odvdDense.AP.Shape()).DimSize(0)
-
-					if err != nil {
-						return err
-					}
-
-					odvdDenseReshaped = true
-					odvdDense.Reshape(1, odvdDenseVecDims)
-				}
-
-				tensordot, err = otherdvvDense.MatMul(odvdDense)
-
-				// Undo Reshape
-				if otherdvvDenseReshaped {
-					otherdvvDense.Reshape(otherdvvDenseShapeOld...)
-				}
-
-				if odvdDenseReshaped {
-					odvdDense.Reshape(odvdDenseShapeOld...)
-				}
+// freeAxes returns the axes of the shape that are not contracted.
+func freeAxes(s tensor.Shape, contracted []int) (retVal []int) {
+	for i := range s {
+		if contains(contracted, i) < 0 {
+			retVal = append(retVal, i)
+		}
+	}
+	return
+}
 
-			default:
-				tensordot, err = otherdvvDense.TensorMul(odvdDense, dOtherAxes, dOutputAxes)
+// freeShape returns the extents of the axes that are not contracted.
+func freeShape(s tensor.Shape, contracted []int) (retVal tensor.Shape) {
+	for _, i := range freeAxes(s, contracted) {
+		retVal = append(retVal, s[i])
+	}
+	return
+}
 
-			}
+// transposed returns a copy of t (understood to be of the given shape) with its axes permuted.
+func transposed(t tensor.Tensor, shape tensor.Shape, pattern []int) (*tensor.Dense, error) {
+	d, ok := t.(*tensor.Dense)
+	if !ok {
+		return nil, errors.Errorf(nyiTypeFail, "tensordot", t)
+	}
+	if d.IsMaterializable() {
+		d = d.Materialize().(*tensor.Dense)
+	} else {
+		d = d.Clone().(*tensor.Dense)
+	}
+	if len(shape) == 0 {
+		return d, nil
+	}
+	if err := d.Reshape(shape...); err != nil {
+		return nil, err
+	}
+	if monotonic, incr1 := tensor.IsMonotonicInts(pattern); monotonic && incr1 {
+		return d, nil
+	}
+	if err := d.T(pattern...); err != nil {
+		return nil, err
+	}
+	return d, d.Transpose()
+}
 
-			if err != nil {
-				return err
-			}
-			tensordotPerm, err := tensor.T(tensordot, pattern...)
-			if err != nil {
-				return err
-			}
+// contractDense sums the products of a and b over the pairs of axes given. a and b are understood to have the shapes given.
+// The result of contracting all the axes has a shape of (1).
+func contractDense(a, b tensor.Tensor, aShape, bShape tensor.Shape, aAxes, bAxes []int) (*tensor.Dense, error) {
+	size := 1
+	for _, axis := range aAxes {
+		size *= aShape[axis]
+	}
+	freeA, freeB := freeShape(aShape, aAxes), freeShape(bShape, bAxes)
 
-			tensordotPermDense := tensordotPerm.(*tensor.Dense)
+	at, err := transposed(a, aShape, append(freeAxes(aShape, aAxes), aAxes...))
+	if err != nil {
+		return nil, err
+	}
+	bt, err := transposed(b, bShape, append(append([]int(nil), bAxes...), freeAxes(bShape, bAxes)...))
+	if err != nil {
+		return nil, err
+	}
+	if err = at.Reshape(freeA.TotalSize(), size); err != nil {
+		return nil, err
+	}
+	if err = bt.Reshape(size, freeB.TotalSize()); err != nil {
+		return nil, err
+	}
 
-			d := idvd.(*tensor.Dense)
-			if _, err = d.Add(tensordotPermDense, tensor.UseUnsafe()); err != nil { // TODO: Should output directly into d and save the add
-				return err
-			}
+	retVal, err := at.MatMul(bt)
+	if err != nil {
+		return nil, err
+	}
+	shape := append(freeA, freeB...)
+	if len(shape) == 0 {
+		shape = tensor.Shape{1}
+	}
+	return retVal, retVal.Reshape(shape...)
+}
 
-		default:
-			return errors.Errorf(nyiTypeFail, "Do Diff (hack)", st)
+// addTransposed adds the transposition of t to dest.
+func addTransposed(dest tensor.Tensor, t *tensor.Dense, pattern []int) (err error) {
+	if len(pattern) == t.Dims() {
+		if t, err = transposed(t, t.Shape().Clone(), pattern); err != nil {
+			return err
 		}
 	}
-
-	return nil
+	if !t.Shape().Eq(dest.Shape()) || t.Dims() != dest.Dims() {
+		if err = t.Reshape(dest.Shape()...); err != nil {
+			return err
+		}
+	}
+	_, err = tensor.Add(dest, t, tensor.UseUnsafe())
+	return err
 }
 
 func (op tensordotOp) DiffWRT(inputs int) []bool {
@@ -1132,154 +1131,35 @@ func (op tensordotOp) SymDiff(inputs Nodes, output *Node, grad *Node) (retVal No
 		return
 	}
 
-	retVal = make(Nodes, len(inputs))
-
-	for inNr, in := range inputs {
-		// abuse of language below: "i" up front will refer to current "in"
-		// "other" for the other input (there are only two)
-
-		// Who's derivative are we calculating?
-		var iAxes []int
-		var otherAxes []int
-		var iWasFirstArgument bool
-		var other *Node
-
-		if 0 == inNr {
-			iAxes = op.aAxes
-			otherAxes = op.bAxes
-			other = inputs[1]
-			iWasFirstArgument = true
-		} else {
-			iAxes = op.bAxes
-			otherAxes = op.aAxes
-			other = inputs[0]
-			iWasFirstArgument = false
-		}
-
-		// Below a tensordot will be performed: Its output axes will be in the wrong order w.r.t to the input.
-		// What is the correct permutation/pattern?
-		iAxesCoSorted := make([]int, len(iAxes))
-		for index, value := range iAxes {
-			iAxesCoSorted[index] = value
-		}
-
-		otherAxesSorted := make([]int, len(otherAxes))
-		for index, value := range otherAxes {
-			otherAxesSorted[index] = value
-		}
-
-		sortUniqueIntWithImitator(otherAxesSorted, iAxesCoSorted)
-
-		pattern := make([]int, len(in.shape))
-		counter := len(iAxes)
-
-		for patternIndex := 0; patternIndex < len(pattern); patternIndex++ {
-			iAxesCoSortedIndex := contains(iAxesCoSorted, patternIndex)
-			if 0 <= iAxesCoSortedIndex {
-				pattern[patternIndex] = iAxesCoSortedIndex
-			} else {
-				pattern[patternIndex] = counter
-				counter++
-			}
+	a, b := inputs[0], inputs[1]
+	var da, db *Node
+	if len(op.aAxes) == a.Dims() && len(op.bAxes) == b.Dims() {
+		// everything was contracted
+		if da, err = HadamardProd(b, grad); err == nil {
+			db, err = HadamardProd(a, grad)
 		}
-
-		// Which axes of the other tensor and the output should be contracted?
-		// Other tensor: All axes that weren't contracted (with i ;-) ) in the original tensordot
-		// With the exception of scalars
-		dOtherAxes := make([]int, other.Dims())
-		if !other.Shape().IsScalarEquiv() {
-			var dOtherAxesIndex int
-
-			for axis := 0; axis < other.Dims(); axis++ {
-				if 0 > contains(otherAxes, axis) {
-					dOtherAxes[dOtherAxesIndex] = axis
-					dOtherAxesIndex++
-				}
-			}
-			dOtherAxes = dOtherAxes[0:dOtherAxesIndex]
-		}
-
-		// Grad: All axes which belong to other in the output of original tensordot, so this depends on input ordering
-		dGradAxes := make([]int, len(dOtherAxes))
-		if iWasFirstArgument {
-			gradAxesStart := grad.Dims() - len(dOtherAxes)
-
-			for axis := 0; axis < len(dOtherAxes); axis++ {
-				dGradAxes[axis] = gradAxesStart + axis
-			}
-		} else {
-			for axis := 0; axis < len(dOtherAxes); axis++ {
-				dGradAxes[axis] = axis
-			}
-		}
-
-		// perform tensordot
-		var tensordot *Node
-		switch {
-		case grad.Shape().IsScalarEquiv():
-			if tensordot, err = HadamardProd(other, grad); err != nil {
-				err = SymDiffError{
-					nodes:  inputs,
-					single: other,
-					grad:   grad,
-					err:    errors.Wrap(err, "While performing tensordot of (other × grad) in SymDiff of `tensordotOp`. Nodes() returns the inputs. Node() returns the `other`, Grad() returns grad`"),
-				}
-				return nil, err
-			}
-
-		case other.Shape().IsVector() && grad.Shape().IsVector() && 0 == len(dOtherAxes): // TensorMul does not support creating matrix from two vectors
-			// Reformat vectors, so that MatMul will create a matrix from them
-			otherCorrectShape := other
-			if !other.IsColVec() {
-				otherVecDims, err := (other.Shape()).DimSize(0)
-				if err != nil {
-					err = SymDiffError{
-						nodes:  inputs,
-						single: other,
-						err:    errors.Wrap(err, "While getting .DimSize(0) of other, while SymDiff-ing. Nodes() returns the inputs, Node() returns `other`. There is no Grad or Grad map."),
-					}
-					return nil, err
-				}
-
-				if otherCorrectShape, err = Reshape(other, tensor.Shape{otherVecDims, 1}); err != nil {
-					return nil, err
-				}
-			}
-
-			gradCorrectShape := grad
-			if !grad.IsRowVec() {
-				gradVecDims, err := (grad.Shape()).DimSize(0)
-
-				if err != nil {
-					return nil, err
-				}
-
-				if gradCorrectShape, err = Reshape(grad, tensor.Shape{1, gradVecDims}); err != nil {
-					return nil, err
-				}
-			}
-
-			op := linAlgBinOp{āBinaryOperator: matMulOperator}
-			if tensordot, err = binOpNode(op, otherCorrectShape, gradCorrectShape); err != nil {
-				return nil, err
-			}
-
-		default:
-			tensordot, err = Tensordot(dOtherAxes, dGradAxes, other, grad)
-		}
-
-		if err != nil {
-			return nil, err
+	} else {
+		gradA, gradB := op.gradAxes(a.Shape(), b.Shape())
+		freeA, freeB := freeAxes(a.Shape(), op.aAxes), freeAxes(b.Shape(), op.bAxes)
+		if da, err = ApplyOp(makeTensordotOp(grad, b, gradB, freeB), grad, b); err == nil {
+			db, err = ApplyOp(makeTensordotOp(a, grad, freeA, gradA), a, grad)
 		}
-
-		ret, err := Transpose(tensordot, pattern...)
-
-		if err != nil {
-			return nil, err
+	}
+	if err != nil {
+		return nil, SymDiffError{
+			nodes: inputs,
+			grad:  grad,
+			err:   errors.Wrap(err, "While performing tensordot of the inputs with grad in SymDiff of `tensordotOp`. Nodes() returns the inputs. Grad() returns grad`"),
 		}
-
-		retVal[inNr] = ret
 	}
 
+	retVal = make(Nodes, 2)
+	patternA, patternB := op.patterns(a.Shape(), b.Shape())
+	if retVal[0], err = Transpose(da, patternA...); err != nil {
+		return nil, err
+	}
+	if retVal[1], err = Transpose(db, patternB...); err != nil {
+		return nil, err
+	}
 	return retVal, nil
 }
-- 
2.43.0


From f0e1bd7e5315b2f12d784c049515e80ad5cccb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:44:44 +0000
Subject: [PATCH 039/110] fix: accumulating batched products of one element

---
 operatorLinAlg.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/operatorLinAlg.go b/operatorLinAlg.go
index e6b1a13..b321a10 100644
--- a/operatorLinAlg.go
+++ b/operatorLinAlg.go
@@ -486,6 +486,9 @@ func batchedMatMul(a, b, c tensor.Tensor, transA, transB, incr bool) (retVal ten
 		if err := reshape("b", bs, innerB...); err != nil {
 			return nil, err
 		}
+		if err := reshape("c", cs, innerA[0], innerB[1]); err != nil {
+			return nil, err
+		}
 
 		var fo tensor.FuncOpt
 		if incr {
-- 
2.43.0


From 2b8bb861efcb69e1b8e2c8f563b9bba0d12585a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:53:43 +0000
Subject: [PATCH 040/110] fix: refuse convolution windows that do not fit in
 the padded input

---
 nn.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nn.go b/nn.go
index ee25fcb..23f5805 100644
--- a/nn.go
+++ b/nn.go
@@ -194,6 +194,15 @@ func Im2Col(n *Node, kernel, pad, stride, dilation tensor.Shape) (retVal *Node,
 		return nil, errors.Errorf("cannot have negative or 0 in dilation. %v", dilation)
 	}
 
+	if n.Dims() != 4 {
+		return nil, errors.Errorf("expected the input to have 4 dims, got %v dims", n.Dims())
+	}
+	for i, size := range n.Shape()[2:] {
+		if span := dilation[i]*(kernel[i]-1) + 1; span > size+2*pad[i] {
+			return nil, errors.Errorf("kernel %v with dilation %v does not fit in an input of shape %v padded by %v", kernel, dilation, n.Shape(), pad)
+		}
+	}
+
 	op := makeIm2ColOp(kernel[0], kernel[1], pad[0], pad[1], stride[0], stride[1], dilation[0], dilation[1])
 	return ApplyOp(op, n)
 }
-- 
2.43.0


From e027fb34e9919ae454053099642f16736f2136ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:54:51 +0000
Subject: [PATCH 041/110] fix: accumulate the derivatives of im2col and max
 pooling

---
 op_nn.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/op_nn.go b/op_nn.go
index 65dca26..445dfb7 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -284,10 +284,11 @@ func (op im2colOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (err
 		im2colOp: op,
 	}
 
-	if _, err = diffOp.UsePreallocDo(imv.d, colv.d); err != nil {
+	var d Value
+	if d, err = diffOp.Do(colv.d); err != nil {
 		return errors.Wrapf(err, doFail, diffOp)
 	}
-	return
+	return addDeriv(imv, d)
 }
 
 func (op im2colOp) calcShape(s tensor.Shape) (retVal tensor.Shape) {
@@ -783,10 +784,21 @@ func (op *maxPoolOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (e
 	op2 = *op
 	diff := &maxPoolDiffOp{op2}
 
-	if _, err = diff.UsePreallocDo(inputDV.d, inputDV.Value, outDV.Value, outDV.d); err != nil {
+	var d Value
+	if d, err = diff.Do(inputDV.Value, outDV.Value, outDV.d); err != nil {
 		return errors.Wrapf(err, doFail, diff)
 	}
-	return
+	return addDeriv(inputDV, d)
+}
+
+// addDeriv adds d to the derivative that dv holds already: an input may be used more than once.
+func addDeriv(dv *dualValue, d Value) error {
+	add := newEBOByType(addOpType, TypeOf(dv.d), TypeOf(d))
+	sum, err := add.UnsafeDo(dv.d, d)
+	if err != nil {
+		return errors.Wrapf(err, unsafeDoFail, add)
+	}
+	return dv.SetDeriv(sum)
 }
 
 func (op *maxPoolOp) checkInput(inputs ...Value) (tensor.Tensor, error) {
-- 
2.43.0


From ff8a4685a858aebc54e857a65a3ce934eaf0b193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:55:05 +0000
Subject: [PATCH 042/110] fix: hash every parameter of convolution patches and
 pooling

---
 op_avg_pool.go |  8 ++++----
 op_nn.go       | 13 +++++++------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index a142f97..df45107 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -159,9 +159,9 @@ func (op *avgPoolOp) ReturnsPtr() bool     { return false }
 func (op *avgPoolOp) CallsExtern() bool    { return false }
 func (op *avgPoolOp) OverwritesInput() int { return -1 }
 func (op *avgPoolOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "AvgPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "AvgPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d, %t), stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padWest, op.padSouth, op.padEast, op.explicitPadding, op.strideH, op.strideW)
 }
 
 func (op *avgPoolOp) Hashcode() uint32 { return simpleHash(op) }
@@ -415,9 +415,9 @@ func (op *avgPoolDiffOp) ReturnsPtr() bool     { return true }
 func (op *avgPoolDiffOp) CallsExtern() bool    { return false }
 func (op *avgPoolDiffOp) OverwritesInput() int { return -1 }
 func (op *avgPoolDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "AvgPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "AvgPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d, %t), stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padWest, op.padSouth, op.padEast, op.explicitPadding, op.strideH, op.strideW)
 }
 
 func (op *avgPoolDiffOp) Hashcode() uint32 { return simpleHash(op) }
diff --git a/op_nn.go b/op_nn.go
index 445dfb7..afd34bf 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -225,7 +225,7 @@ func (op im2colOp) CallsExtern() bool    { return false }
 func (op im2colOp) OverwritesInput() int { return -1 }
 
 func (op im2colOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "im2col:%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW)
+	fmt.Fprintf(h, "im2col:%d-%d-%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW, op.dilationH, op.dilationW)
 }
 
 func (op im2colOp) Hashcode() uint32 { return simpleHash(op) }
@@ -486,7 +486,8 @@ func (op col2imOp) CallsExtern() bool    { return false }
 func (op col2imOp) OverwritesInput() int { return -1 }
 
 func (op col2imOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "col2im:%d-%d-%d-%d-%d-%d", op.h, op.w, op.padH, op.padW, op.strideH, op.strideW)
+	fmt.Fprintf(h, "col2im{%d, %d, %d, %d}", op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW)
+	op.im2colOp.WriteHash(h)
 }
 
 func (op col2imOp) Hashcode() uint32 { return simpleHash(op) }
@@ -727,9 +728,9 @@ func (op *maxPoolOp) ReturnsPtr() bool     { return false }
 func (op *maxPoolOp) CallsExtern() bool    { return false }
 func (op *maxPoolOp) OverwritesInput() int { return -1 }
 func (op *maxPoolOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "MaxPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "MaxPool{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d, %t), stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padWest, op.padSouth, op.padEast, op.explicitPadding, op.strideH, op.strideW)
 }
 
 func (op *maxPoolOp) Hashcode() uint32 { return simpleHash(op) }
@@ -999,9 +1000,9 @@ func (op *maxPoolDiffOp) ReturnsPtr() bool     { return true }
 func (op *maxPoolDiffOp) CallsExtern() bool    { return false }
 func (op *maxPoolDiffOp) OverwritesInput() int { return -1 }
 func (op *maxPoolDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "MaxPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d), stride: (%d, %d))",
+	fmt.Fprintf(h, "MaxPoolDiff{%d, %d, %d, %d}(kernel: (%d, %d), pad: (%d, %d, %d, %d, %t), stride: (%d, %d))",
 		op.unpaddedB, op.unpaddedC, op.unpaddedH, op.unpaddedW,
-		op.h, op.w, op.padNorth, op.padWest, op.strideH, op.strideW)
+		op.h, op.w, op.padNorth, op.padWest, op.padSouth, op.padEast, op.explicitPadding, op.strideH, op.strideW)
 }
 
 func (op *maxPoolDiffOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From ce5769d49b21c815d0d9e121b6daec6f0db6a6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:10 +0000
Subject: [PATCH 043/110] fix: sparsemax along any axis and its derivative

---
 op_sparsemax.go | 176 +++++++++++++++++++++++++-----------------------
 1 file changed, 90 insertions(+), 86 deletions(-)

diff --git a/op_sparsemax.go b/op_sparsemax.go
index e1aebac..de5a62b 100644
--- a/op_sparsemax.go
+++ b/op_sparsemax.go
@@ -44,7 +44,7 @@ func (op *sparsemaxOp) ReturnsPtr() bool { return false }
 func (op *sparsemaxOp) CallsExtern() bool { return false }
 
 func (op *sparsemaxOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "Sparsemax{}()")
+	fmt.Fprintf(h, "Sparsemax{%d}()", op.axis)
 }
 
 func (op *sparsemaxOp) Hashcode() uint32 { return simpleHash(op) }
@@ -86,16 +86,9 @@ func (op *sparsemaxOp) Do(inputs ...Value) (Value, error) {
 		return nil, fmt.Errorf("Can't check Sparsemax input: %w", err)
 	}
 
-	inputShape := inputTensor.Shape()
-
-	if op.axis != -1 {
-		axes := make([]int, inputTensor.Dims())
-		axes[op.axis] = 1
-
-		inputTensor, err = tensor.Transpose(inputTensor, axes...)
-		if err != nil {
-			return nil, fmt.Errorf("error tranposing the input tensor: %w", err)
-		}
+	inputTensor, perm, err := axisLast(inputTensor, op.axis)
+	if err != nil {
+		return nil, err
 	}
 
 	var output interface{}
@@ -115,7 +108,40 @@ func (op *sparsemaxOp) Do(inputs ...Value) (Value, error) {
 		return nil, fmt.Errorf("invalid input type for Sparsemax, expected float64 or float32, got: %v", inputTensor.Dtype())
 	}
 
-	return tensor.New(tensor.Of(inputTensor.Dtype()), tensor.WithShape(inputShape.Clone()...), tensor.WithEngine(inputTensor.Engine()), tensor.WithBacking(output)), nil
+	retVal := tensor.New(tensor.Of(inputTensor.Dtype()), tensor.WithShape(inputTensor.Shape().Clone()...), tensor.WithEngine(inputTensor.Engine()), tensor.WithBacking(output))
+	if perm != nil {
+		return tensor.Transpose(retVal, perm...)
+	}
+	return retVal, nil
+}
+
+// axisLast returns t in row major order with the given axis (-1 for the last) as the last one.
+// perm is the permutation that brings the axis there and back, nil if it is the last one already.
+func axisLast(t tensor.Tensor, axis int) (retVal tensor.Tensor, perm []int, err error) {
+	last := t.Dims() - 1
+	if axis == -1 {
+		axis = last
+	}
+	if last < 0 || axis < 0 || axis > last {
+		return nil, nil, errors.Errorf("axis %d is out of range for a tensor of shape %v", axis, t.Shape())
+	}
+	if v, ok := t.(tensor.View); ok {
+		t = v.Materialize()
+	}
+	if axis == last {
+		return t, nil, nil
+	}
+
+	perm = make([]int, last+1)
+	for i := range perm {
+		perm[i] = i
+	}
+	perm[axis], perm[last] = last, axis
+
+	if retVal, err = tensor.Transpose(t, perm...); err != nil {
+		return nil, nil, fmt.Errorf("error tranposing the tensor: %w", err)
+	}
+	return retVal, perm, nil
 }
 
 // FIXME: go2 generics
@@ -309,32 +335,19 @@ func (op *sparsemaxOp) float64sparseMax(inputTensor tensor.Tensor) (interface{},
 
 // DoDiff calculates the diff and sets its value to the output node. Implementation for ADOp interface.
 func (op *sparsemaxOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) error {
-	if len(inputs) != 2 {
-		return fmt.Errorf("SparsemaxOp.DoDiff needs 2 arguments")
+	if len(inputs) != 1 {
+		return fmt.Errorf("SparsemaxOp.DoDiff needs 1 argument")
 	}
 
-	odv := output.boundTo.(*dualValue)
-	odvd := odv.Value.(tensor.Tensor)
-	diffOp := &sparsemaxDiffOp{}
-
-	result, err := diffOp.Do(odvd, inputs[1].boundTo)
-	if err != nil {
-		return err
-	}
+	xdv, ydv := getDV(inputs[0], output)
+	diffOp := newSparsemaxOpDiff(op.axis)
 
-	err = result.(*tensor.Dense).Reshape(odvd.Shape()...)
+	d, err := diffOp.Do(ydv.Value, ydv.d)
 	if err != nil {
 		return err
 	}
 
-	sum, err := odvd.(*tensor.Dense).Add(result.(*tensor.Dense), tensor.UseUnsafe())
-	if err != nil {
-		return err
-	}
-
-	odv.d = sum
-
-	return nil
+	return addDeriv(xdv, d)
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
@@ -346,7 +359,7 @@ func (op *sparsemaxOp) SymDiff(inputs Nodes, output, grad *Node) (Nodes, error)
 
 	t := output
 
-	diffOp := &sparsemaxDiffOp{}
+	diffOp := newSparsemaxOpDiff(op.axis)
 	nodes := make(Nodes, 1)
 
 	nodes[0], err = ApplyOp(diffOp, t, grad)
@@ -364,10 +377,11 @@ func (op *sparsemaxOp) DiffWRT(inputs int) []bool {
 }
 
 type sparsemaxDiffOp struct {
+	axis int
 }
 
-func newSparsemaxOpDiff() *sparsemaxDiffOp {
-	return &sparsemaxDiffOp{}
+func newSparsemaxOpDiff(axis int) *sparsemaxDiffOp {
+	return &sparsemaxDiffOp{axis: axis}
 }
 
 func (op *sparsemaxDiffOp) Arity() int {
@@ -379,7 +393,7 @@ func (op *sparsemaxDiffOp) ReturnsPtr() bool { return false }
 func (op *sparsemaxDiffOp) CallsExtern() bool { return false }
 
 func (op *sparsemaxDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "SparsemaxDiff{}()")
+	fmt.Fprintf(h, "SparsemaxDiff{%d}()", op.axis)
 }
 
 func (op *sparsemaxDiffOp) Hashcode() uint32 { return simpleHash(op) }
@@ -438,14 +452,6 @@ func (op *sparsemaxDiffOp) checkInput(inputs ...Value) (*tensor.Dense, *tensor.D
 	return in, gradient, nil
 }
 
-func (op *sparsemaxDiffOp) mul(a tensor.Tensor, b tensor.Tensor) (tensor.Tensor, error) {
-	if a.Dims() != b.Dims() {
-		return tensor.Outer(a, b)
-	}
-
-	return tensor.Mul(a, b)
-}
-
 func (op *sparsemaxDiffOp) Do(inputs ...Value) (Value, error) {
 	inputTensor, gradTensor, err := op.checkInput(inputs...)
 	if err != nil {
@@ -456,61 +462,59 @@ func (op *sparsemaxDiffOp) Do(inputs ...Value) (Value, error) {
 		return nil, fmt.Errorf("sparsemaxDiffOp.Do inputs sizes should be equal")
 	}
 
-	var zero interface{}
-
-	if inputTensor.Dtype() == tensor.Float32 {
-		zero = float32(0.0)
-	} else {
-		zero = float64(0.0)
-	}
-
-	nonZeros, err := inputTensor.ElNeScalar(zero, false, tensor.AsSameType())
-	if err != nil {
-		return nil, fmt.Errorf("sparsemaxDiffOp.Do failed to get non-zeros: %w", err)
-	}
-
-	mul, err := op.mul(nonZeros, gradTensor)
-	if err != nil {
-		return nil, fmt.Errorf("sparsemaxDiffOp.Do failed to mul grad tensor: %w", err)
-	}
-
-	a, err := tensor.Sum(mul, 1)
+	out, perm, err := axisLast(inputTensor, op.axis)
 	if err != nil {
 		return nil, err
 	}
-
-	b, err := tensor.Sum(nonZeros, 1)
+	grad, _, err := axisLast(gradTensor, op.axis)
 	if err != nil {
 		return nil, err
 	}
 
-	sum, err := tensor.Div(a, b)
-	if err != nil {
-		return nil, err
-	}
-
-	if sum.Dims() == 1 && gradTensor.Dims() == 2 {
-		err := sum.Reshape(sum.Shape()[0], 1)
-		if err != nil {
-			return nil, err
+	n := out.Shape()[out.Dims()-1]
+	result := tensor.New(tensor.Of(out.Dtype()), tensor.WithShape(out.Shape().Clone()...), tensor.WithEngine(out.Engine()))
+
+	// within the support the derivative is the gradient without its mean over the support. Elsewhere it is 0
+	switch dx := result.Data().(type) {
+	case []float64:
+		y, dy := out.Data().([]float64), grad.Data().([]float64)
+		for start := 0; start < len(dx); start += n {
+			var sum, count float64
+			for i := start; i < start+n; i++ {
+				if y[i] != 0 {
+					sum += dy[i]
+					count++
+				}
+			}
+			for i := start; i < start+n; i++ {
+				if y[i] != 0 {
+					dx[i] = dy[i] - sum/count
+				}
+			}
 		}
-
-		sum, err = tensor.Repeat(sum, 1, gradTensor.Shape()[1])
-		if err != nil {
-			panic(err)
+	case []float32:
+		y, dy := out.Data().([]float32), grad.Data().([]float32)
+		for start := 0; start < len(dx); start += n {
+			var sum, count float32
+			for i := start; i < start+n; i++ {
+				if y[i] != 0 {
+					sum += dy[i]
+					count++
+				}
+			}
+			for i := start; i < start+n; i++ {
+				if y[i] != 0 {
+					dx[i] = dy[i] - sum/count
+				}
+			}
 		}
+	default:
+		return nil, fmt.Errorf("invalid input type for SparsemaxDiff, expected float64 or float32, got: %v", out.Dtype())
 	}
 
-	sub, err := tensor.Sub(gradTensor, sum)
-	if err != nil {
-		return nil, err
-	}
-
-	result, err := op.mul(nonZeros, sub)
-	if err != nil {
-		return nil, err
+	if perm != nil {
+		return tensor.Transpose(result, perm...)
 	}
-
 	return result, nil
 }
 
-- 
2.43.0


From f9d2b877054f942e90f54b703519b037edb762ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:00 +0000
Subject: [PATCH 044/110] fix: softmax of rows that are much smaller than the
 first one

---
 op_softmax.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/op_softmax.go b/op_softmax.go
index 087f0c8..d9d652b 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -108,6 +108,12 @@ func (op *softmaxOp) axisOf(shp tensor.Shape) int {
 	return shp.Dims() - 1 // default: last dim
 }
 
+// withUnitAxis returns a tensor that shares its memory with t and has a further axis of size 1 at the end.
+func withUnitAxis(t tensor.Tensor) tensor.Tensor {
+	shp := append(t.Shape().Clone(), 1)
+	return tensor.New(tensor.WithShape(shp...), tensor.WithBacking(t.Data()), tensor.WithEngine(t.Engine()))
+}
+
 func (op *softmaxOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error) {
 	inputTensor, err := op.checkInput(inputs...)
 	if err != nil {
@@ -115,14 +121,22 @@ func (op *softmaxOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, erro
 	}
 
 	axis := op.axisOf(inputTensor.Shape())
+	ret := prealloc.(tensor.Tensor)
+
+	if axis == inputTensor.Dims()-1 {
+		// along the last axis the tensor package compares every row with the first element of all,
+		// and a row that is much smaller ends up as 0/0. Along an inner axis it does not.
+		inputTensor = withUnitAxis(inputTensor)
+		ret = withUnitAxis(ret)
+	}
 
 	if !op.isLog {
-		_, err = tensor.SoftMax(inputTensor, axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
+		_, err = tensor.SoftMax(inputTensor, axis, tensor.WithReuse(ret), tensor.UseUnsafe())
 		if err != nil {
 			return nil, err
 		}
 	} else {
-		_, err = tensor.LogSoftMax(inputTensor, axis, tensor.WithReuse(prealloc.(tensor.Tensor)), tensor.UseUnsafe())
+		_, err = tensor.LogSoftMax(inputTensor, axis, tensor.WithReuse(ret), tensor.UseUnsafe())
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From 3f96bcded0419b2b5e3f78fc80a669f716275339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:28 +0000
Subject: [PATCH 045/110] fix: derivative of batch normalisation on the
 interpreting machine

---
 op_nn.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/op_nn.go b/op_nn.go
index afd34bf..05c70fc 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1247,10 +1247,12 @@ func (op *BatchNormOp) String() string {
 func (op *BatchNormOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) error {
 	diff := &batchnormDiffOp{op}
 	xdv, ydv := getDV(inputs[0], output)
-	sdv, bdv := getDV(inputs[1], inputs[2])
-	_, err := diff.UsePreallocDo(xdv.d, xdv.Value, ydv.d, sdv.Value, bdv.Value)
+	d, err := diff.Do(xdv.Value, ydv.d)
+	if err != nil {
+		return errors.Wrapf(err, doFail, diff)
+	}
 
-	return err
+	return addDeriv(xdv, d)
 }
 
 // DiffWRT ...
-- 
2.43.0


From 6d628f95072af9ec53c6c98856df573579565a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:38 +0000
Subject: [PATCH 046/110] fix: batch normalisation into preallocated memory
 reads its input

---
 op_nn.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/op_nn.go b/op_nn.go
index 05c70fc..b71734d 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1476,6 +1476,7 @@ func (op *BatchNormOp) f64s(input, output *tensor.Dense) (err error) {
 	}
 
 	// output = input * alpha + beta
+	inputF64s := input.Float64s()
 	outputF64s := output.Float64s()
 
 	if spatialDim == 1 {
@@ -1483,7 +1484,7 @@ func (op *BatchNormOp) f64s(input, output *tensor.Dense) (err error) {
 			for c := 0; c < channels; c++ {
 				i := s*channels + c
 
-				outputF64s[i] = outputF64s[i]*alpha[c] + beta[c]
+				outputF64s[i] = inputF64s[i]*alpha[c] + beta[c]
 			}
 		})
 	} else {
@@ -1492,7 +1493,7 @@ func (op *BatchNormOp) f64s(input, output *tensor.Dense) (err error) {
 				for d := 0; d < spatialDim; d++ {
 					i := s*channels*spatialDim + c*spatialDim + d
 
-					outputF64s[i] = outputF64s[i]*alpha[c] + beta[c]
+					outputF64s[i] = inputF64s[i]*alpha[c] + beta[c]
 				}
 			}
 		})
@@ -1623,6 +1624,7 @@ func (op *BatchNormOp) f32s(input, output *tensor.Dense) (err error) {
 	}
 
 	// output = input * alpha + beta
+	inputF32s := input.Float32s()
 	outputF32s := output.Float32s()
 
 	if spatialDim == 1 {
@@ -1630,7 +1632,7 @@ func (op *BatchNormOp) f32s(input, output *tensor.Dense) (err error) {
 			for c := 0; c < channels; c++ {
 				i := s*channels + c
 
-				outputF32s[i] = outputF32s[i]*alpha[c] + beta[c]
+				outputF32s[i] = inputF32s[i]*alpha[c] + beta[c]
 			}
 		})
 
@@ -1640,7 +1642,7 @@ func (op *BatchNormOp) f32s(input, output *tensor.Dense) (err error) {
 				for d := 0; d < spatialDim; d++ {
 					i := s*channels*spatialDim + c*spatialDim + d
 
-					outputF32s[i] = outputF32s[i]*alpha[c] + beta[c]
+					outputF32s[i] = inputF32s[i]*alpha[c] + beta[c]
 				}
 			}
 		})
-- 
2.43.0


From 26c88086f58bc9046d1ea7fd0c33e9d09bff12de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:09 +0000
Subject: [PATCH 047/110] fix: derivative of batch normalisation of images when
 evaluating

---
 op_nn.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/op_nn.go b/op_nn.go
index b71734d..4110dd7 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1816,6 +1816,9 @@ func (op *batchnormDiffOp) f64s(input, prealloc, outGrad *tensor.Dense) (err err
 			}
 
 			invstd := 1 / math.Sqrt(float64(saveVariance[c])/float64(n)+float64(op.epsilon))
+			if !op.training {
+				invstd = 1 / math.Sqrt(runningVar[c]+op.epsilon)
+			}
 			k := float64(dotp*invstd*invstd) / float64(n)
 
 			// grad_mean = dySum / N
@@ -1927,6 +1930,9 @@ func (op *batchnormDiffOp) f32s(input, prealloc, outGrad *tensor.Dense) (err err
 			}
 
 			invstd := 1 / math32.Sqrt(saveVariance[c]/float32(n)+float32(op.epsilon))
+			if !op.training {
+				invstd = 1 / math32.Sqrt(runningVar[c]+float32(op.epsilon))
+			}
 			k := float32(dotp*invstd*invstd) / float32(n)
 
 			// grad_mean = dySum / N
-- 
2.43.0


From efe3692886c34007bc60d81b9f35b68b27bca11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:20 +0000
Subject: [PATCH 048/110] fix: hash the exact parameters of batch normalisation
 and dropout

---
 op_dropout.go | 4 ++--
 op_nn.go      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/op_dropout.go b/op_dropout.go
index de2ecfd..1190d10 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -37,7 +37,7 @@ func (op *dropoutOp) ReturnsPtr() bool { return false }
 
 func (op *dropoutOp) CallsExtern() bool { return false }
 
-func (op *dropoutOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, op.String()) }
+func (op *dropoutOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "Dropout{%v, training=%v}()", op.probability, op.isTraining) }
 
 func (op *dropoutOp) Hashcode() uint32 { return simpleHash(op) }
 
@@ -259,7 +259,7 @@ func (op dropoutDiffOp) OverwritesInput() int { return -1 }
 
 /* Other methods */
 
-func (op dropoutDiffOp) WriteHash(h hash.Hash) { h.Write([]byte(op.String())) }
+func (op dropoutDiffOp) WriteHash(h hash.Hash) { fmt.Fprintf(h, "dropoutDiffOp(%v)", op.probability) }
 
 func (op dropoutDiffOp) Hashcode() uint32 {
 	h := fnv.New32a()
diff --git a/op_nn.go b/op_nn.go
index 4110dd7..7f4045b 100644
--- a/op_nn.go
+++ b/op_nn.go
@@ -1233,7 +1233,7 @@ func (op *BatchNormOp) OverwritesInput() int { return -1 }
 
 // WriteHash ...
 func (op *BatchNormOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "batchnorm-%1.1f-%1.1f", op.momentum, op.epsilon)
+	fmt.Fprintf(h, "batchnorm-%v-%v", op.momentum, op.epsilon)
 }
 
 // Hashcode ...
@@ -1694,7 +1694,7 @@ func (op *batchnormDiffOp) Do(values ...Value) (Value, error) {
 // OverwritesInput is the same exact characteristics of batchnorm
 
 func (op *batchnormDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "batchnormdiff-%1.1f-%1.1f", op.momentum, op.epsilon)
+	fmt.Fprintf(h, "batchnormdiff-%v-%v", op.momentum, op.epsilon)
 }
 
 func (op *batchnormDiffOp) Hashcode() uint32 { return simpleHash(op) }
-- 
2.43.0


From 77adc0e26a59b43a94c9424158db612f20630fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:31 +0000
Subject: [PATCH 049/110] fix: derivative of dropout when evaluating, and
 accumulate it

---
 op_dropout.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/op_dropout.go b/op_dropout.go
index 1190d10..7e973d0 100644
--- a/op_dropout.go
+++ b/op_dropout.go
@@ -137,9 +137,12 @@ func (op *dropoutOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) er
 	diff := &dropoutDiffOp{op}
 	xdv, ydv := getDV(inputs[0], output)
 
-	_, err := diff.UsePreallocDo(xdv.d, xdv.Value, output.Value(), ydv.d)
+	d, err := diff.Do(xdv.Value, ydv.Value, ydv.d)
+	if err != nil {
+		return err
+	}
 
-	return err
+	return addDeriv(xdv, d)
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
@@ -209,6 +212,11 @@ func (op *dropoutDiffOp) UsePreallocDo(prealloc Value, inputs ...Value) (retVal
 	output := inputs[1].(*tensor.Dense)
 	outGrad := inputs[2].(*tensor.Dense)
 
+	if !op.isTraining {
+		// the op passes its input on
+		return Copy(prealloc, outGrad)
+	}
+
 	probability := op.probability
 
 	switch input.Dtype() {
-- 
2.43.0


From 7d8ae09ce9e49e242931c2e70f347d02e9c17896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:57 +0000
Subject: [PATCH 050/110] fix: softmax along the last axis of a view

---
 op_softmax.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/op_softmax.go b/op_softmax.go
index d9d652b..0cd0988 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -126,6 +126,9 @@ func (op *softmaxOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, erro
 	if axis == inputTensor.Dims()-1 {
 		// along the last axis the tensor package compares every row with the first element of all,
 		// and a row that is much smaller ends up as 0/0. Along an inner axis it does not.
+		if v, ok := inputTensor.(tensor.View); ok && v.IsMaterializable() {
+			inputTensor = v.Materialize()
+		}
 		inputTensor = withUnitAxis(inputTensor)
 		ret = withUnitAxis(ret)
 	}
-- 
2.43.0


From 91f384bb82eee0d8929bac964a705cf16122e018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:45 +0000
Subject: [PATCH 051/110] fix: momentum of scalars and regularisation by the
 weights in the momentum solver

---
 solvers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/solvers.go b/solvers.go
index c155358..68e5a2b 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1022,7 +1022,7 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			// prep the regularization of gradients
 			var l1regs, l2regs tensor.Tensor
 			if s.useL1Reg {
-				if l1regs, err = tensor.Sign(cw); err != nil {
+				if l1regs, err = tensor.Sign(w); err != nil {
 					return errors.Wrap(err, signFail)
 				}
 
@@ -1038,7 +1038,7 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			}
 
 			if s.useL2Reg {
-				if l2regs, err = tensor.Mul(cw, l2reg); err != nil {
+				if l2regs, err = tensor.Mul(w, l2reg); err != nil {
 					return errors.Wrap(err, pointWiseMulFail)
 				}
 
@@ -1121,6 +1121,8 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			c = c*momentum - eta*g
 			w += c
 
+			cached.Value, _ = anyToScalar(c)
+
 			*(weights.(*F32)) = F32(w)
 			*(grad.(*F32)) = F32(0.0)
 		case *F64:
@@ -1162,6 +1164,8 @@ func (s *Momentum) Step(model []ValueGrad) (err error) {
 			c = c*momentum - eta*g
 			w += c
 
+			cached.Value, _ = anyToScalar(c)
+
 			*(weights.(*F64)) = F64(w)
 			*(grad.(*F64)) = F64(0.0)
 		default:
-- 
2.43.0


From 8b1186625076f66fa6c15eafadd777d551646ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:21:57 +0000
Subject: [PATCH 052/110] fix: options and scalar memory of the AdaGrad solver

---
 solvers.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/solvers.go b/solvers.go
index 68e5a2b..21fc900 100644
--- a/solvers.go
+++ b/solvers.go
@@ -67,6 +67,9 @@ func WithL2Reg(l2reg float64) SolverOpt {
 		case *RMSPropSolver:
 			st.l2reg = l2reg
 			st.useL2Reg = true
+		case *AdaGradSolver:
+			st.l2reg = l2reg
+			st.useL2Reg = true
 		case *AdamSolver:
 			st.l2reg = l2reg
 			st.useL2Reg = true
@@ -128,6 +131,8 @@ func WithEps(eps float64) SolverOpt {
 		switch st := s.(type) {
 		case *RMSPropSolver:
 			st.eps = eps
+		case *AdaGradSolver:
+			st.eps = eps
 		case *AdamSolver:
 			st.eps = eps
 		case *AdamW:
@@ -144,6 +149,9 @@ func WithClip(clip float64) SolverOpt {
 		case *RMSPropSolver:
 			st.clip = clip
 			st.useClip = true
+		case *AdaGradSolver:
+			st.clip = clip
+			st.useClip = true
 		case *AdamSolver:
 			st.clip = clip
 			st.useClip = true
@@ -170,6 +178,8 @@ func WithLearnRate(eta float64) SolverOpt {
 		switch st := s.(type) {
 		case *RMSPropSolver:
 			st.eta = eta
+		case *AdaGradSolver:
+			st.eta = eta
 		case *AdamSolver:
 			st.eta = eta
 		case *VanillaSolver:
@@ -1312,6 +1322,7 @@ func (s *AdaGradSolver) Step(model []ValueGrad) (err error) {
 			g = grad.(*F32).any()
 
 			c += g * g
+			cached.Value, _ = anyToScalar(c)
 
 			if s.useClip {
 				if g > clip {
@@ -1346,6 +1357,7 @@ func (s *AdaGradSolver) Step(model []ValueGrad) (err error) {
 			g = grad.(*F64).any()
 
 			c += g * g
+			cached.Value, _ = anyToScalar(c)
 
 			if s.useClip {
 				if g > clip {
-- 
2.43.0


From b6b3a19dc66e0dd3d947c77f06c1da7a1c01aabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:12 +0000
Subject: [PATCH 053/110] fix: clip the gradients of scalars in the RMSProp
 solver

---
 solvers.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/solvers.go b/solvers.go
index 21fc900..db53be7 100644
--- a/solvers.go
+++ b/solvers.go
@@ -381,6 +381,7 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 			stepSize := float32(s.eta)
 			eps := float32(s.eps)
 			l2reg := float32(s.l2reg)
+			clip := float32(s.clip)
 
 			gs := grad.(*F32).any()
 			c := cw.any()
@@ -388,6 +389,14 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 
 			cached.Value, _ = anyToScalar(c)
 
+			if s.useClip {
+				if gs > clip {
+					gs = clip
+				} else if gs < -clip {
+					gs = -clip
+				}
+			}
+
 			w := weights.(*F32).any()
 			upd := -stepSize*gs/math32.Sqrt(c+eps) - l2reg*w
 			w += upd
@@ -401,6 +410,7 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 			stepSize := s.eta
 			eps := s.eps
 			l2reg := s.l2reg
+			clip := s.clip
 
 			gs := grad.(*F64).any()
 			c := cw.any()
@@ -408,6 +418,14 @@ func (s *RMSPropSolver) Step(model []ValueGrad) (err error) {
 
 			cached.Value, _ = anyToScalar(c)
 
+			if s.useClip {
+				if gs > clip {
+					gs = clip
+				} else if gs < -clip {
+					gs = -clip
+				}
+			}
+
 			w := weights.(*F64).any()
 			upd := -stepSize*gs/math.Sqrt(c+eps) - l2reg*w
 			w += upd
-- 
2.43.0


From 9e56827be40e1580b1d63100a7dd4f9da3ed53cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:27 +0000
Subject: [PATCH 054/110] fix: AdamW updates its parameters by the AdamW rule

---
 solvers.go | 82 +++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 63 insertions(+), 19 deletions(-)

diff --git a/solvers.go b/solvers.go
index db53be7..ba586c3 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1586,6 +1586,8 @@ type adamwState struct {
 	expMA   tensor.Tensor // exponential moving average
 	expMASq tensor.Tensor
 	denom   tensor.Tensor // a temporary tensor used for computation
+
+	m, v float64 // moments of a scalar
 }
 
 // AdamW is a Adam-like solver where the weight decay regularization is decoupled.
@@ -1606,7 +1608,7 @@ type AdamW struct {
 
 	// unsettable
 	iter   float64
-	states map[*Node]*adamwState
+	states map[ValueGrad]*adamwState
 }
 
 func NewAdamW(opts ...SolverOpt) *AdamW {
@@ -1616,7 +1618,7 @@ func NewAdamW(opts ...SolverOpt) *AdamW {
 		λ:      0.01,
 		β1:     0.9,
 		β2:     0.999,
-		states: make(map[*Node]*adamwState),
+		states: make(map[ValueGrad]*adamwState),
 	}
 	for _, opt := range opts {
 		opt(s)
@@ -1634,21 +1636,36 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 	*/
 	a.iter++
 	for _, n := range model {
-		n := n.(*Node)
 		var weights, grad Value
 		if weights, grad, err = extractWeightGrad(n); err != nil {
 			return err
 		}
-		w := weights.(tensor.Tensor)
-		g := grad.(tensor.Tensor)
 
 		st, ok := a.states[n]
 		if !ok {
 			st = new(adamwState)
+			a.states[n] = st
+		}
+
+		switch wv := weights.(type) {
+		case *F64:
+			gv := grad.(*F64)
+			*wv = F64(a.stepScalar(st, float64(*wv), float64(*gv)))
+			*gv = 0
+			continue
+		case *F32:
+			gv := grad.(*F32)
+			*wv = F32(a.stepScalar(st, float64(*wv), float64(*gv)))
+			*gv = 0
+			continue
+		}
+
+		w := weights.(tensor.Tensor)
+		g := grad.(tensor.Tensor)
+		if !ok {
 			st.expMA = tensor.New(tensor.WithShape(grad.Shape().Clone()...), tensor.Of(grad.Dtype()))
 			st.expMASq = tensor.New(tensor.WithShape(grad.Shape().Clone()...), tensor.Of(grad.Dtype()))
 			st.denom = tensor.New(tensor.WithShape(grad.Shape().Clone()...), tensor.Of(grad.Dtype()))
-			a.states[n] = st
 		}
 
 		var decay, a1, a2, b1, b2, b2sqrt, ss, eps interface{}
@@ -1664,10 +1681,10 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 			decay = 1.0 - lr*wd
 			b1f := 1.0 - math.Pow(β1, it) // correction for beta
 			b2f := 1.0 - math.Pow(β2, it)
-			a1 = 1.0 - b1f
-			a2 = 1.0 - b2f // note here b2f is not sqrt'd
-			b1 = b1f
-			b2 = b2f
+			a1 = 1.0 - β1
+			a2 = 1.0 - β2
+			b1 = β1
+			b2 = β2
 			b2sqrt = math.Sqrt(b2f)
 			ss = -(lr / b1f)
 
@@ -1686,17 +1703,17 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 			decay = float32(1.0) - lr*wd
 			b1f := float32(1.0) - math32.Pow(β1, it) // correction for beta
 			b2f := float32(1.0) - math32.Pow(β2, it)
-			a1 = float32(1.0) - b1f
-			a2 = float32(1.0) - b2f // note here b2f is not sqrt'd
-			b1 = b1f
-			b2 = b2f
+			a1 = float32(1.0) - β1
+			a2 = float32(1.0) - β2
+			b1 = β1
+			b2 = β2
 			b2sqrt = math32.Sqrt(b2f)
 			ss = -(lr / b1f)
 
-			l1reg = a.l1reg
-			l2reg = a.l2reg
-			clip = a.clip
-			negClip = -a.clip
+			l1reg = float32(a.l1reg)
+			l2reg = float32(a.l2reg)
+			clip = float32(a.clip)
+			negClip = float32(-a.clip)
 
 		}
 		// regularization of gradients
@@ -1725,7 +1742,7 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 		var gSq tensor.Tensor
 
 		// θ_t =  (1 - ηλ)θ_t-1
-		if w, err = tensor.Mul(w, decay); err != nil {
+		if w, err = tensor.Mul(w, decay, tensor.UseUnsafe()); err != nil {
 			return err
 		}
 
@@ -1770,3 +1787,30 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 	}
 	return nil
 }
+
+// stepScalar returns the value of a scalar parameter w with gradient g after this step.
+func (a *AdamW) stepScalar(st *adamwState, w, g float64) float64 {
+	if a.useL1Reg {
+		if w < 0 {
+			g -= a.l1reg
+		} else {
+			g += a.l1reg
+		}
+	}
+	if a.useL2Reg {
+		g += a.l2reg * w
+	}
+	if a.batch > 1 {
+		g /= a.batch
+	}
+	if a.useClip && a.clip > 0 {
+		g = math.Max(-a.clip, math.Min(a.clip, g))
+	}
+
+	st.m = a.β1*st.m + (1-a.β1)*g
+	st.v = a.β2*st.v + (1-a.β2)*g*g
+	mHat := st.m / (1 - math.Pow(a.β1, a.iter))
+	vHat := st.v / (1 - math.Pow(a.β2, a.iter))
+
+	return w*(1-a.η*a.λ) - a.η*mHat/(math.Sqrt(vHat)+a.ɛ)
+}
-- 
2.43.0


From 8046a7127a19568c34e001f833806c3e0bdc8405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:41 +0000
Subject: [PATCH 055/110] fix: Barzilai-Borwein steps for scalars and float32

---
 solvers.go | 54 +++++++++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 3 deletions(-)

diff --git a/solvers.go b/solvers.go
index ba586c3..f0e88bf 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1502,7 +1502,11 @@ func (s *BarzilaiBorweinSolver) Step(model []ValueGrad) (err error) {
 				}
 				defer returnTensor(valGradDiffscalarProd)
 
-				nominator += valGradDiffscalarProd.Data().([]float64)[0]
+				prod, err := floatOf(valGradDiffscalarProd)
+				if err != nil {
+					return err
+				}
+				nominator += prod
 
 				// ∥(Grad(F)(xᵢ) - Grad(F)(xᵢ₋₁))∥²
 				gradDiffscalarProd, err := tensor.Contract(gradDiff, gradDiff, contractionAxes, contractionAxes)
@@ -1511,7 +1515,22 @@ func (s *BarzilaiBorweinSolver) Step(model []ValueGrad) (err error) {
 				}
 				defer returnTensor(gradDiffscalarProd)
 
-				denominator += gradDiffscalarProd.Data().([]float64)[0]
+				if prod, err = floatOf(gradDiffscalarProd); err != nil {
+					return err
+				}
+				denominator += prod
+
+			case *F64:
+				valueDiff := float64(*w - *(s.prevDV[nodeNr].Value.(*F64)))
+				gradDiff := float64(*(grad.(*F64)) - *(s.prevDV[nodeNr].d.(*F64)))
+				nominator += valueDiff * gradDiff
+				denominator += gradDiff * gradDiff
+
+			case *F32:
+				valueDiff := float64(*w - *(s.prevDV[nodeNr].Value.(*F32)))
+				gradDiff := float64(*(grad.(*F32)) - *(s.prevDV[nodeNr].d.(*F32)))
+				nominator += valueDiff * gradDiff
+				denominator += gradDiff * gradDiff
 
 			default:
 				return errors.Errorf(nyiFail, "Barizai-Borwein step", w)
@@ -1561,7 +1580,11 @@ func (s *BarzilaiBorweinSolver) Step(model []ValueGrad) (err error) {
 				return errors.Errorf("Expected a *tensor.Dense in %v. Got %T instead", node, grad)
 			}
 
-			upd, err := tensor.Mul(g, s.eta)
+			var eta interface{} = s.eta
+			if g.Dtype() == tensor.Float32 {
+				eta = float32(s.eta)
+			}
+			upd, err := tensor.Mul(g, eta)
 			defer returnTensor(upd)
 
 			if err != nil {
@@ -1574,6 +1597,16 @@ func (s *BarzilaiBorweinSolver) Step(model []ValueGrad) (err error) {
 
 			g.Zero()
 
+		case *F64:
+			g := grad.(*F64)
+			*w -= F64(s.eta) * *g
+			*g = 0
+
+		case *F32:
+			g := grad.(*F32)
+			*w -= F32(s.eta) * *g
+			*g = 0
+
 		default:
 			return errors.Errorf(nyiFail, "Barizai-Borwein step", w)
 		}
@@ -1582,6 +1615,21 @@ func (s *BarzilaiBorweinSolver) Step(model []ValueGrad) (err error) {
 	return nil
 }
 
+// floatOf returns the only element of t.
+func floatOf(t tensor.Tensor) (float64, error) {
+	switch data := t.Data().(type) {
+	case float64:
+		return data, nil
+	case []float64:
+		return data[0], nil
+	case float32:
+		return float64(data), nil
+	case []float32:
+		return float64(data[0]), nil
+	}
+	return 0, errors.Errorf(nyiTypeFail, "Barizai-Borwein step", t.Data())
+}
+
 type adamwState struct {
 	expMA   tensor.Tensor // exponential moving average
 	expMASq tensor.Tensor
-- 
2.43.0


From 9023602673b33131d959a7c167873b9d1d2efebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:22:47 +0000
Subject: [PATCH 056/110] fix: keep the free list doubly linked when coalescing
 blocks

---
 cuda/bfc.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cuda/bfc.go b/cuda/bfc.go
index 95a2a5c..4e7966c 100644
--- a/cuda/bfc.go
+++ b/cuda/bfc.go
@@ -435,6 +435,9 @@ func (b *bfc) coalesce() {
 			case block.cap() == next.address:
 				block.size += next.size
 				block.next = next.next
+				if next.next != nil {
+					next.next.prev = block
+				}
 				next.next = nil
 				next.prev = nil // kill i
 
-- 
2.43.0


From 5a50da76400f02264ecc6e9b8c8424295980d62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:23:31 +0000
Subject: [PATCH 057/110] fix: AdamW steps of parameters with one element

---
 solvers.go       |  6 +++---
 solvers_utils.go | 17 ++++++++++++-----
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/solvers.go b/solvers.go
index f0e88bf..a08fdbd 100644
--- a/solvers.go
+++ b/solvers.go
@@ -1798,7 +1798,7 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 		if st.expMA, err = tensor.Mul(st.expMA, b1, tensor.UseUnsafe()); err != nil {
 			return err
 		}
-		if _, err = tensor.Mul(g, a1, tensor.WithIncr(st.expMA)); err != nil {
+		if err = addScaled(st.expMA, g, a1); err != nil {
 			return err
 		}
 
@@ -1809,7 +1809,7 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 		if gSq, err = tensor.Mul(g, g, tensor.UseUnsafe()); err != nil {
 			return err
 		}
-		if _, err = tensor.Mul(gSq, a2, tensor.WithIncr(st.expMASq)); err != nil {
+		if err = addScaled(st.expMASq, gSq, a2); err != nil {
 			return err
 		}
 
@@ -1827,7 +1827,7 @@ func (a *AdamW) Step(model []ValueGrad) (err error) {
 			return err
 		}
 
-		if w, err = tensor.Mul(st.denom, ss, tensor.WithIncr(w)); err != nil {
+		if err = addScaled(w, st.denom, ss); err != nil {
 			return err
 		}
 
diff --git a/solvers_utils.go b/solvers_utils.go
index 3ac320c..b1d36b6 100644
--- a/solvers_utils.go
+++ b/solvers_utils.go
@@ -12,17 +12,24 @@ func doL1Reg(w, g tensor.Tensor, l1reg interface{}) (err error) {
 	if l1regs, err = tensor.Sign(w); err != nil {
 		errors.Wrap(err, signFail)
 	}
-	if _, err = tensor.Mul(l1reg, l1regs, tensor.WithIncr(g)); err != nil {
-		return errors.Wrap(err, pointWiseMulFail)
-	}
 	defer returnTensor(l1regs)
-	return nil
+	return addScaled(g, l1regs, l1reg)
 }
 
 func doL2Reg(w, g tensor.Tensor, l2reg interface{}) (err error) {
-	if _, err = tensor.Mul(w, l2reg, tensor.WithIncr(g)); err != nil {
+	return addScaled(g, w, l2reg)
+}
+
+// addScaled adds scale*t to dst. Incrementing multiplications are not used, because they overwrite t when it has one element.
+func addScaled(dst, t tensor.Tensor, scale interface{}) (err error) {
+	var scaled tensor.Tensor
+	if scaled, err = tensor.Mul(t, scale); err != nil {
 		return errors.Wrap(err, pointWiseMulFail)
 	}
+	defer returnTensor(scaled)
+	if _, err = tensor.Add(dst, scaled, tensor.UseUnsafe()); err != nil {
+		return errors.Wrap(err, addFail)
+	}
 	return nil
 }
 
-- 
2.43.0


From ebcca5c4c19cd1a807aa2cca73f215a74f1da74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:48 +0000
Subject: [PATCH 058/110] fix: size the operands of variadic operations from
 the graph in the concurrent machine

---
 x/vm/node.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/x/vm/node.go b/x/vm/node.go
index 7d6f577..c028259 100644
--- a/x/vm/node.go
+++ b/x/vm/node.go
@@ -111,11 +111,20 @@ func newOp(n *gorgonia.Node, hasOutputChan bool) *node {
 		outputC = make(chan gorgonia.Value, 0)
 
 	}
+	arity := n.Op().Arity()
+	if arity < 0 {
+		// variadic operation
+		arity = n.Graph().From(n.ID()).Len()
+	}
+	var inputC chan ioValue
+	if arity > 0 {
+		inputC = make(chan ioValue, 0)
+	}
 	return &node{
 		id:          n.ID(),
 		op:          n.Op(),
-		inputValues: make([]gorgonia.Value, n.Op().Arity()),
-		inputC:      make(chan ioValue, 0),
+		inputValues: make([]gorgonia.Value, arity),
+		inputC:      inputC,
 		outputC:     outputC,
 	}
 }
-- 
2.43.0


From c291503a825daccc1b2eecf3e45cba38399ab197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:00 +0000
Subject: [PATCH 059/110] fix: constant tensors take no operands

---
 op.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op.go b/op.go
index 671a5ff..e89a9f5 100644
--- a/op.go
+++ b/op.go
@@ -265,7 +265,7 @@ type constantTensor struct {
 	v tensor.Tensor
 }
 
-func (c constantTensor) Arity() int                                   { return 1 }
+func (c constantTensor) Arity() int                                   { return 0 }
 func (c constantTensor) Type() hm.Type                                { return TypeOf(c.v) }
 func (c constantTensor) InferShape(...DimSizer) (tensor.Shape, error) { return c.v.Shape(), nil }
 
-- 
2.43.0


From 5414ca409f72d8c5b427c250b73b4648d8f277af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:18 +0000
Subject: [PATCH 060/110] fix: execute random nodes in the concurrent machine

---
 x/vm/machine.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/x/vm/machine.go b/x/vm/machine.go
index 4fffe03..21fc5a5 100644
--- a/x/vm/machine.go
+++ b/x/vm/machine.go
@@ -30,7 +30,7 @@ func NewMachine(g *gorgonia.ExprGraph) *Machine {
 		switch {
 		case op == nil:
 			nn = newInput(n)
-		case op.Arity() == 0:
+		case op.Arity() == 0 && !generatesValue(g, n):
 			nn = newInput(n)
 		default:
 			nn = newOp(n, !topNode)
@@ -44,6 +44,13 @@ func NewMachine(g *gorgonia.ExprGraph) *Machine {
 	return m
 }
 
+// generatesValue reports whether n produces its value by executing an op that has
+// no operand (a random node for example), unlike a constant or a statement.
+func generatesValue(g *gorgonia.ExprGraph, n *gorgonia.Node) bool {
+	_, isConstant := n.Op().(interface{ Value() gorgonia.Value })
+	return !isConstant && g.From(n.ID()).Len() == 0
+}
+
 // createNetwork instantiate all the channels and create the pubsubs
 func createNetwork(ns []*node, g *gorgonia.ExprGraph) *pubsub {
 	ids := make(map[int64]*node, len(ns))
-- 
2.43.0


From 9f774b70b2922a2e1c3d3993c7b3c63847ddb5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:24 +0000
Subject: [PATCH 061/110] fix: CTC loss of an empty target has the sign of a
 loss

---
 op_ctc_loss.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_ctc_loss.go b/op_ctc_loss.go
index 08288be..ab93d19 100644
--- a/op_ctc_loss.go
+++ b/op_ctc_loss.go
@@ -259,7 +259,7 @@ func (op *ctcLossOp) f64s(logProbsT, prealloc, targetsT, inputLengthsT, targetLe
 		}
 
 		if targetLength == 0 {
-			negLogLikelihoodA[b] = logAlphaSection[(inputLength-1)*targetWidth]
+			negLogLikelihoodA[b] = -logAlphaSection[(inputLength-1)*targetWidth]
 		} else {
 			l1 := logAlphaSection[(inputLength-1)*targetWidth+targetLength*2]
 			l2 := logAlphaSection[(inputLength-1)*targetWidth+targetLength*2-1]
@@ -435,7 +435,7 @@ func (op *ctcLossOp) f32s(logProbsT, prealloc, targetsT, inputLengthsT, targetLe
 		}
 
 		if targetLength == 0 {
-			negLogLikelihoodA[b] = logAlphaSection[(inputLength-1)*targetWidth]
+			negLogLikelihoodA[b] = -logAlphaSection[(inputLength-1)*targetWidth]
 		} else {
 			l1 := logAlphaSection[(inputLength-1)*targetWidth+targetLength*2]
 			l2 := logAlphaSection[(inputLength-1)*targetWidth+targetLength*2-1]
-- 
2.43.0


From c450a4ba2a2d00306cf5fc34f36f109356c03b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:38 +0000
Subject: [PATCH 062/110] fix: CTC loss gradient is zero past the end of a
 sequence

---
 op_ctc_loss.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/op_ctc_loss.go b/op_ctc_loss.go
index ab93d19..d89feca 100644
--- a/op_ctc_loss.go
+++ b/op_ctc_loss.go
@@ -738,6 +738,13 @@ func (op *ctcLossDiffOp) f64s(logProbsT, targetsT, inputLengthsT, targetLengthsT
 				}
 			}
 		}
+
+		// frames past the end of the sequence have no influence
+		for t := inputLength; t < inputSize; t++ {
+			for c := 0; c < numLabels; c++ {
+				gradSlice.SetAt(0.0, t, c)
+			}
+		}
 	})
 
 	gradT.UT()
@@ -907,6 +914,13 @@ func (op *ctcLossDiffOp) f32s(logProbsT, targetsT, inputLengthsT, targetLengthsT
 				}
 			}
 		}
+
+		// frames past the end of the sequence have no influence
+		for t := inputLength; t < inputSize; t++ {
+			for c := 0; c < numLabels; c++ {
+				gradSlice.SetAt(float32(0.0), t, c)
+			}
+		}
 	})
 
 	gradT.UT()
-- 
2.43.0


From 9996cf3b8deed56903e75dd9c9919619652f31a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:53:51 +0000
Subject: [PATCH 063/110] fix: CTC losses with different reductions are
 different operations

---
 op_ctc_loss.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_ctc_loss.go b/op_ctc_loss.go
index d89feca..d673db3 100644
--- a/op_ctc_loss.go
+++ b/op_ctc_loss.go
@@ -57,7 +57,7 @@ func (op *ctcLossOp) ReturnsPtr() bool { return false }
 func (op *ctcLossOp) CallsExtern() bool { return false }
 
 func (op *ctcLossOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "CTCLoss{}()")
+	fmt.Fprintf(h, "CTCLoss{%d}()", op.reduction)
 }
 
 func (op *ctcLossOp) Hashcode() uint32 { return simpleHash(op) }
@@ -526,7 +526,7 @@ func (op *ctcLossDiffOp) WriteHash(h hash.Hash) {
 func (op *ctcLossDiffOp) Hashcode() uint32 { return simpleHash(op) }
 
 func (op *ctcLossDiffOp) String() string {
-	return fmt.Sprintf("ctcLossDiff{}()")
+	return fmt.Sprintf("ctcLossDiff{%d}()", op.reduction)
 }
 
 func (op *ctcLossDiffOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
-- 
2.43.0


From 10fa49e2d0dd72e6b5873bcccabdf48225388d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:34 +0000
Subject: [PATCH 064/110] fix: CTC loss returns the scalar its type announces

---
 op_ctc_loss.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/op_ctc_loss.go b/op_ctc_loss.go
index d673db3..3204d9f 100644
--- a/op_ctc_loss.go
+++ b/op_ctc_loss.go
@@ -486,7 +486,13 @@ func (op *ctcLossOp) Do(inputs ...Value) (retVal Value, err error) {
 		tensor.WithShape(),
 	)
 
-	return op.UsePreallocDo(prealloc, inputs...)
+	if _, err = op.UsePreallocDo(prealloc, inputs...); err != nil {
+		return nil, err
+	}
+
+	// the type of the result is a scalar, not a tensor
+	retVal, _ = anyToScalar(prealloc.ScalarValue())
+	return retVal, nil
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From 531a2f180f89b105246945be2a0f23cfcb949acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:57:49 +0000
Subject: [PATCH 065/110] fix: CTC loss of a sequence without frames

---
 op_ctc_loss.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/op_ctc_loss.go b/op_ctc_loss.go
index 3204d9f..f77a485 100644
--- a/op_ctc_loss.go
+++ b/op_ctc_loss.go
@@ -216,6 +216,14 @@ func (op *ctcLossOp) f64s(logProbsT, prealloc, targetsT, inputLengthsT, targetLe
 		finalLogAlphaIndex := (b + 1) * logAlphaSpatialDim
 		logAlphaSection := logAlphaA[initialLogAlphaIndex:finalLogAlphaIndex]
 
+		if inputLength == 0 {
+			// without frames only the empty target has an alignment
+			if targetLength > 0 {
+				negLogLikelihoodA[b] = -negInf
+			}
+			return
+		}
+
 		logAlphaSection[0] = lppSection[0]
 
 		if targetLength > 0 {
@@ -392,6 +400,14 @@ func (op *ctcLossOp) f32s(logProbsT, prealloc, targetsT, inputLengthsT, targetLe
 		finalLogAlphaIndex := (b + 1) * logAlphaSpatialDim
 		logAlphaSection := logAlphaA[initialLogAlphaIndex:finalLogAlphaIndex]
 
+		if inputLength == 0 {
+			// without frames only the empty target has an alignment
+			if targetLength > 0 {
+				negLogLikelihoodA[b] = -negInf
+			}
+			return
+		}
+
 		logAlphaSection[0] = lppSection[0]
 
 		if targetLength > 0 {
-- 
2.43.0


From b18c90f397cde15ef92e6b575dc9d6154b6176a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:01:19 +0000
Subject: [PATCH 066/110] fix: lisp machine reports an input without a value

---
 vm_genera.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vm_genera.go b/vm_genera.go
index 36b2888..cc3de31 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -311,6 +311,9 @@ func (m *lispMachine) forward() (err error) {
 		switch {
 		case n.isArg():
 			machineLogf("Unit() on input node")
+			if n.boundTo == nil {
+				return errors.Errorf("No value has been bound to input %v", n)
+			}
 			if err = n.bind(dvUnit(n.boundTo)); err != nil {
 				return errors.Wrap(err, bindFail)
 			}
-- 
2.43.0


From 2e6e4e5afb8d31345fe58c8e0a88d69fd7cda00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:00 +0000
Subject: [PATCH 067/110] fix: NaN and Inf watches accept scalars that are not
 floats

---
 utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils.go b/utils.go
index ed7d394..e091a09 100644
--- a/utils.go
+++ b/utils.go
@@ -187,6 +187,8 @@ func hasInf(v Value, dev Device) bool {
 		return false
 	case *dualValue:
 		return hasInf(vt.Value, dev) || hasInf(vt.d, dev)
+	case Scalar:
+		return false // the other scalars have no Inf
 	default:
 		err := nyi("hasInf", v)
 		panic(err)
@@ -229,6 +231,8 @@ func hasNaN(v Value, dev Device) bool {
 		return false
 	case *dualValue:
 		return hasNaN(vt.Value, dev) || hasNaN(vt.d, dev)
+	case Scalar:
+		return false // the other scalars have no NaN
 	default:
 		err := nyi("hasNaN", vt)
 		panic(err)
-- 
2.43.0


From 07c1f59e3c1290184eaa5ce41761b50888d57634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:13:14 +0000
Subject: [PATCH 068/110] fix: lisp machine watches for Inf

---
 vm_genera.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/vm_genera.go b/vm_genera.go
index cc3de31..9557e92 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -511,6 +511,12 @@ func (m *lispMachine) forward() (err error) {
 		}
 	}
 
+	if m.watchInf() && !n.isStmt {
+		if hasInf(n.boundTo, dev) {
+			return errors.New("Inf found in value")
+		}
+	}
+
 	return
 }
 
@@ -564,6 +570,18 @@ func (m *lispMachine) backward() (err error) {
 			}
 		}
 	}
+
+	if m.watchInf() {
+		if hasInf(instr.output.boundTo, instr.ctx.Device) {
+			return errors.New("Inf found in value")
+		}
+
+		for _, in := range instr.inputs {
+			if hasInf(in.boundTo, instr.ctx.Device) {
+				return errors.New("Inf found in value")
+			}
+		}
+	}
 	return
 }
 
-- 
2.43.0


From 995c78d879d1e5f9d5a07c887812fd799faf5bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:14:59 +0000
Subject: [PATCH 069/110] fix: watch the first node and random nodes for NaN
 and Inf

---
 vm_genera.go | 6 ++++++
 vm_tape.go   | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/vm_genera.go b/vm_genera.go
index 9557e92..ea2e151 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -330,6 +330,12 @@ func (m *lispMachine) forward() (err error) {
 				return errors.Wrap(err, bindFail)
 			}
 
+			if m.watchNaN() && hasNaN(v, CPU) {
+				return errors.New("NaN found in value")
+			}
+			if m.watchInf() && hasInf(v, CPU) {
+				return errors.New("Inf found in value")
+			}
 			return
 		default:
 			// do nothihng
diff --git a/vm_tape.go b/vm_tape.go
index 4f3aa0d..03f3540 100644
--- a/vm_tape.go
+++ b/vm_tape.go
@@ -277,7 +277,7 @@ func (m *tapeMachine) runall(errChan chan error, doneChan chan struct{}) {
 		if m.watchNaN() {
 			writeTo := instr.writes().id
 			id := instr.ID()
-			if writeTo > 0 && id > 0 {
+			if writeTo >= 0 && id >= 0 {
 				v := m.getValue(instr.writes())
 				if v == nil {
 					err := errors.Errorf(nyiFail, "converting tensor.Memory to Value", "watchNaN")
@@ -297,7 +297,7 @@ func (m *tapeMachine) runall(errChan chan error, doneChan chan struct{}) {
 		if m.watchInf() {
 			writeTo := instr.writes().id
 			id := instr.ID()
-			if writeTo > 0 && id > 0 {
+			if writeTo >= 0 && id >= 0 {
 				v := m.getValue(instr.writes())
 				if v == nil {
 					err := errors.Errorf(nyiFail, "converting tensor.Memory to Value", "watchInf")
-- 
2.43.0


From 2ad4486c0a2d8b11f39b4fec04fbc1fdb3d3a35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:32 +0000
Subject: [PATCH 070/110] fix: work out the roots of a graph again after it
 grew or was cloned

---
 graph.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/graph.go b/graph.go
index 9709ca7..cb2f945 100644
--- a/graph.go
+++ b/graph.go
@@ -124,9 +124,11 @@ func (g *ExprGraph) Clone() interface{} {
 		g2.constants[i] = mapping[n]
 	}
 
-	g2.roots = make(Nodes, len(g.roots))
-	for i, n := range g.roots {
-		g2.roots[i] = mapping[n]
+	if g.roots != nil {
+		g2.roots = make(Nodes, len(g.roots))
+		for i, n := range g.roots {
+			g2.roots[i] = mapping[n]
+		}
 	}
 
 	g2.counter = g.counter
@@ -190,6 +192,7 @@ func (g *ExprGraph) addToAll(n *Node) {
 		panic("HELP! trying to add nil")
 	}
 	g.all = append(g.all, n)
+	g.roots = nil // whatever had been worked out is out of date
 	n.id = int64(g.counter)
 	g.counter++
 }
@@ -230,6 +233,7 @@ func (g *ExprGraph) SetEdge(e graph.Edge) {
 
 	// g.to[to] = g.to[to].Add(from)
 	g.to[to] = append(g.to[to], from)
+	g.roots = nil
 }
 
 // Roots returns a list of nodes that are not children of any other nodes
-- 
2.43.0


From d7b794560ffe77ce16f51e35f9d4e76bd6c61ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:44 +0000
Subject: [PATCH 071/110] fix: keep lookups and edges right when a node is
 removed

---
 graph.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index cb2f945..ee79e5c 100644
--- a/graph.go
+++ b/graph.go
@@ -207,10 +207,22 @@ func (g *ExprGraph) RemoveNode(node graph.Node) {
 
 	hash := n.Hashcode()
 
-	delete(g.byHash, hash)
+	if g.byHash[hash] == n {
+		delete(g.byHash, hash)
+	}
+	if ns, ok := g.evac[hash]; ok {
+		g.evac[hash] = ns.remove(n)
+	}
 	delete(g.to, n)
-	g.evac[hash] = g.evac[hash].remove(n)
+	for _, child := range n.children {
+		if ns, ok := g.to[child]; ok {
+			g.to[child] = ns.remove(n)
+		}
+	}
 	g.all = g.all.remove(n)
+	g.constants = g.constants.remove(n)
+	g.byID = make(map[int64]int) // the positions in g.all have changed
+	g.roots = nil
 }
 
 // SetEdge adds e, an edge from one node to another. If the nodes do not exist, they are added.
-- 
2.43.0


From 0ab7d60f015b65a7a8b18e3d70105be879dad162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:17:55 +0000
Subject: [PATCH 072/110] fix: list edges from a node to its operands, as Edge
 does

---
 graph.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graph.go b/graph.go
index ee79e5c..b4d6bc7 100644
--- a/graph.go
+++ b/graph.go
@@ -510,8 +510,8 @@ func (g *ExprGraph) Edges() graph.Edges {
 	for _, n := range g.all {
 		for _, toN := range g.to[n] {
 			edges = append(edges, edge{
-				from: n,
-				to:   toN,
+				from: toN,
+				to:   n,
 			})
 		}
 	}
-- 
2.43.0


From 49a13b016706f1735d59b243fbb2df880f96ba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:18:06 +0000
Subject: [PATCH 073/110] fix: Subgraph of one node contains what the node
 needs

---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index b4d6bc7..e34eeef 100644
--- a/graph.go
+++ b/graph.go
@@ -723,7 +723,7 @@ func (g *ExprGraph) subgraph(ns Nodes, findMissing bool, opts ...Nodes) *ExprGra
 // otherwise, it treats ns as the subset of nodes to be included in the subgraph
 func (g *ExprGraph) Subgraph(ns ...*Node) *ExprGraph {
 	if len(ns) == 1 {
-		g.SubgraphRoots(ns[0])
+		return g.SubgraphRoots(ns[0])
 	}
 	return g.subgraph(ns, true)
 }
-- 
2.43.0


From be6e3f22e506bde9b3e7f2f2bc93f426d1d2db0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:17 +0000
Subject: [PATCH 074/110] fix: keep the outputs of a compiled subgraph alive
 until the end of the program

---
 analysis.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/analysis.go b/analysis.go
index aec5f39..443c32f 100644
--- a/analysis.go
+++ b/analysis.go
@@ -12,6 +12,7 @@ type dataflow struct {
 
 	replacements map[*Node]*Node
 	intervals    map[*Node]*interval
+	outputs      Nodes // roots of the (sub)graph. Their values are expected after a run
 
 	// tracks the special nodes' children and parents
 	devTransChildren map[*Node]Nodes
@@ -87,6 +88,7 @@ func analyze(g *ExprGraph, sorted Nodes) *dataflow {
 
 	compileLogf("Finding unique leaves")
 	df := newdataflow()
+	df.outputs = g.roots
 	for _, n := range g.leaves {
 		df.uniques[n.Hashcode()] = n
 	}
@@ -288,6 +290,16 @@ func (df *dataflow) buildIntervals(sorted Nodes) {
 		}
 	}
 
+	// a root of a subgraph may be used by the other nodes in the subgraph
+	for _, n := range df.outputs {
+		if r, ok := df.replacements[n]; ok {
+			n = r
+		}
+		if iv, ok := intervals[n]; ok {
+			iv.addUsePositions(instructions)
+		}
+	}
+
 	for _, iv := range intervals {
 		iv.fix()
 	}
-- 
2.43.0


From edc8c86ddfee804ccba6f446cc6ca62265cdd545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:25 +0000
Subject: [PATCH 075/110] fix: nodes are only merged if their operands and
 constant values are the same

---
 analysis.go   |  5 ++++-
 equalities.go | 11 +++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/analysis.go b/analysis.go
index 443c32f..84fcfec 100644
--- a/analysis.go
+++ b/analysis.go
@@ -37,7 +37,10 @@ func (df *dataflow) vn(n *Node) (retVal *Node, unique bool) {
 	node, ok := df.uniques[n.Hashcode()]
 
 	if ok {
-		return node, false
+		if nodeEq(node, n) {
+			return node, false
+		}
+		return n, true // a collision of hashes
 	}
 
 	compileLogf("adding a new unique")
diff --git a/equalities.go b/equalities.go
index 85b6d68..e62c964 100644
--- a/equalities.go
+++ b/equalities.go
@@ -201,6 +201,17 @@ func nodeEq(a, b *Node) bool {
 		return false
 	}
 
+	// hashes collide, so the children and the values of constants are compared too
+	for i, child := range a.children {
+		if child != b.children[i] {
+			return false
+		}
+	}
+
+	if a.isConstant() && !ValueEq(a.Value(), b.Value()) {
+		return false
+	}
+
 	if a.t != b.t {
 		return false
 	}
-- 
2.43.0


From 9f8ecf488242d224d5cf864e5cebcee3e45badcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:45 +0000
Subject: [PATCH 076/110] fix: constants of the same name but different value
 or type are different nodes

---
 graph.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graph.go b/graph.go
index e34eeef..46f10eb 100644
--- a/graph.go
+++ b/graph.go
@@ -145,7 +145,7 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 	// check for node with the same name in the graph
 	// we don't update the graph if this is the case
 	for _, node := range g.constants {
-		if node.name == n.name && n.isConstant() {
+		if node.name == n.name && n.isConstant() && nodeEq(node, n) {
 			return node
 		}
 	}
-- 
2.43.0


From 178b2435ca74ae37759cfe0fb7a41151a8c82c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:39:56 +0000
Subject: [PATCH 077/110] =?UTF-8?q?fix:=20stabilizing=20log(1=C2=B1x)=20do?=
 =?UTF-8?q?es=20not=20remove=20a=20node=20that=20may=20be=20in=20use?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 nn.go            | 6 ++++++
 stabilization.go | 6 +-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/nn.go b/nn.go
index 23f5805..15411ac 100644
--- a/nn.go
+++ b/nn.go
@@ -42,6 +42,7 @@ func BinaryXent(output, target *Node) (retVal *Node, err error) {
 		return nil, errors.Wrap(err, operationError)
 	}
 
+	created := int64(output.g.counter)
 	if omo, err = Sub(oneMore, output); err != nil {
 		return nil, errors.Wrap(err, operationError)
 	}
@@ -54,6 +55,11 @@ func BinaryXent(output, target *Node) (retVal *Node, err error) {
 		return nil, errors.Wrap(err, operationError)
 	}
 
+	// the logarithm may have been stabilized, which leaves 1-prob unused
+	if omo.id >= created && omo.isRoot() {
+		output.g.RemoveNode(omo)
+	}
+
 	if retVal, err = HadamardProd(omt, retVal); err != nil {
 		return nil, errors.Wrap(err, operationError)
 	}
diff --git a/stabilization.go b/stabilization.go
index 96ce12f..9341d55 100644
--- a/stabilization.go
+++ b/stabilization.go
@@ -70,11 +70,7 @@ func logStabilization(a *Node) (retVal *Node, err error) {
 		return a, noStabilizationErr{}
 	}
 
-	g := a.g
-	g.removeAllEdgesFrom(a) // remove all references
-	g.RemoveNode(a)
-	defer returnNode(a) // send it back to the pool, since it is literally useless now
-
+	// a is left in the graph: it may be in use elsewhere
 	if bot == subOpType {
 		if retVal, err = Neg(x); err == nil {
 			return Log1p(retVal)
-- 
2.43.0


From 6ad0f58927d36634d3916cd1a692b801fff74bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:12 +0000
Subject: [PATCH 078/110] fix: BinaryXent of a softmax uses the softmax, not
 its logarithm

Log of a softmax without other users is fused into the softmax node
itself. BinaryXent took that logarithm before it built 1-output, so
1-output was computed from the log-softmax.
---
 nn.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nn.go b/nn.go
index 15411ac..0faafc9 100644
--- a/nn.go
+++ b/nn.go
@@ -34,16 +34,17 @@ func BinaryXent(output, target *Node) (retVal *Node, err error) {
 		return nil, errors.Errorf(nyiFail, "BinaryXEnt", dt)
 	}
 
-	if logO, err = Log(output); err != nil {
+	// 1-output comes first: the log of an output nothing else uses may be fused into the output itself
+	created := int64(output.g.counter)
+	if omo, err = Sub(oneMore, output); err != nil {
 		return nil, errors.Wrap(err, operationError)
 	}
 
-	if omt, err = Sub(one, target); err != nil {
+	if logO, err = Log(output); err != nil {
 		return nil, errors.Wrap(err, operationError)
 	}
 
-	created := int64(output.g.counter)
-	if omo, err = Sub(oneMore, output); err != nil {
+	if omt, err = Sub(one, target); err != nil {
 		return nil, errors.Wrap(err, operationError)
 	}
 
-- 
2.43.0


From b3d01f74bbc13fe68ff2d7b9146e64787bcaa7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:45:34 +0000
Subject: [PATCH 079/110] fix: hash the whole bounds of a slice

Bounds were hashed modulo 256, so x[1:3] and x[257:259] were taken for
the same expression and merged.
---
 op_tensor.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index 07ec1e8..53f00f4 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -640,13 +640,13 @@ func (op sliceOp) WriteHash(h hash.Hash) {
 		return
 	}
 
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Start())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Start())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.End())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.End())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Step())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Step())); err != nil {
 		panic(err)
 	}
 }
@@ -842,13 +842,13 @@ func (op sliceIncrOp) WriteHash(h hash.Hash) {
 		return
 	}
 
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Start())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Start())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.End())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.End())); err != nil {
 		panic(err)
 	}
-	if err := binary.Write(h, binary.LittleEndian, byte(op.Step())); err != nil {
+	if err := binary.Write(h, binary.LittleEndian, int64(op.Step())); err != nil {
 		panic(err)
 	}
 }
-- 
2.43.0


From 652a6d99b8fad3d60463a0bf7a9b2af54ddd3001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:46:03 +0000
Subject: [PATCH 080/110] fix: hash every parameter of group normalisation and
 YOLOv3

Expressions that differ only in the epsilon, or in the size, masks,
classes or threshold, were merged.
---
 op_group_norm.go | 4 ++--
 op_yolo.go       | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/op_group_norm.go b/op_group_norm.go
index 2bdd7d1..96b372b 100644
--- a/op_group_norm.go
+++ b/op_group_norm.go
@@ -68,7 +68,7 @@ func (op *GroupNormOp) ReturnsPtr() bool { return false }
 func (op *GroupNormOp) CallsExtern() bool { return false }
 
 func (op *GroupNormOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, op.String())
+	fmt.Fprintf(h, "%v epsilon=%v", op, op.epsilon)
 }
 
 func (op *GroupNormOp) Hashcode() uint32 { return simpleHash(op) }
@@ -520,7 +520,7 @@ func (op *groupNormDiffOp) ReturnsPtr() bool { return false }
 func (op *groupNormDiffOp) CallsExtern() bool { return false }
 
 func (op *groupNormDiffOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, op.String())
+	fmt.Fprintf(h, "%v epsilon=%v", op, op.epsilon)
 }
 
 func (op *groupNormDiffOp) Hashcode() uint32 { return simpleHash(op) }
diff --git a/op_yolo.go b/op_yolo.go
index c7327a7..fe48686 100644
--- a/op_yolo.go
+++ b/op_yolo.go
@@ -69,7 +69,8 @@ func (op *yoloOp) ReturnsPtr() bool { return false }
 func (op *yoloOp) CallsExtern() bool { return false }
 
 func (op *yoloOp) WriteHash(h hash.Hash) {
-	fmt.Fprintf(h, "YOLO{}(anchors: (%v))", op.anchors)
+	fmt.Fprintf(h, "YOLO{}(anchors: (%v), masks: (%v), ignoreTresh: %v, dimensions: %v, numClasses: %v, trainMode: %v)",
+		op.anchors, op.masks, op.ignoreTresh, op.dimensions, op.numClasses, op.trainMode)
 }
 func (op *yoloOp) Hashcode() uint32 { return simpleHash(op) }
 
-- 
2.43.0


From d7344ba29f22bb7c1e4287c8dd98bb40f90989d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:47:49 +0000
Subject: [PATCH 081/110] fix: a constant whose hash collides is added to the
 graph like any other

It was left without a graph, which made whatever used it panic.
---
 graph.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/graph.go b/graph.go
index 46f10eb..e1d0704 100644
--- a/graph.go
+++ b/graph.go
@@ -159,6 +159,7 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 					return e
 				}
 			}
+			n = g.ownConstant(n)
 			g.evac[hash] = append(g.evac[hash], n)
 			g.addToAll(n)
 			incrCC() // collision counter
@@ -166,6 +167,7 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 		}
 
 		if !nodeEq(n, existing) {
+			n = g.ownConstant(n)
 			g.evac[hash] = Nodes{existing, n}
 			g.byHash[hash] = nil // to signal that it's collided
 			g.addToAll(n)
@@ -176,14 +178,19 @@ func (g *ExprGraph) AddNode(n *Node) (retVal *Node) {
 		return existing
 	}
 
+	n = g.ownConstant(n)
+	g.addToAll(n)
+	g.byHash[hash] = n
+	return n
+}
+
+// ownConstant clones n into the graph if it is a constant. Any other node is returned as is.
+func (g *ExprGraph) ownConstant(n *Node) *Node {
 	if n.isConstant() {
 		n = n.clone()
 		g.constants = g.constants.Add(n)
 		n.g = g
 	}
-
-	g.addToAll(n)
-	g.byHash[hash] = n
 	return n
 }
 
-- 
2.43.0


From 2336fd73336b93f6e6f040213ce557d14c4e8d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:48:57 +0000
Subject: [PATCH 082/110] fix: YOLOv3 leaves its input as it is

Outside training the op declared that it overwrites no input, but
reshaped, transposed and activated its input in place.
---
 op_yolo.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/op_yolo.go b/op_yolo.go
index fe48686..9ace96e 100644
--- a/op_yolo.go
+++ b/op_yolo.go
@@ -167,6 +167,8 @@ func (op *yoloOp) Do(inputs ...Value) (retVal Value, err error) {
 			}
 			currentAnchors = append(currentAnchors, op.anchors[i*2], op.anchors[i*2+1])
 		}
+		// evaluateYOLO_f32 works in place
+		inputTensor = inputTensor.Clone().(tensor.Tensor)
 		return op.evaluateYOLO_f32(inputTensor, batchSize, stride, gridSize, bboxAttributes, len(op.masks), currentAnchors)
 	}
 
-- 
2.43.0


From f36fcd6d779afe508eec44e4b34cb0785499fb7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:08:42 +0000
Subject: [PATCH 083/110] fix: compare views of tensors by their elements

---
 equalities.go   | 20 +++++++++++++++++++-
 values_utils.go |  2 +-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/equalities.go b/equalities.go
index e62c964..3b68fcd 100644
--- a/equalities.go
+++ b/equalities.go
@@ -84,13 +84,31 @@ func scalarClose(a, b Scalar) bool {
 	}
 }
 
+// rowMajor returns a tensor whose data lists the elements of t in row major order. This is t itself, unless t is a view
+// (e.g. a slice, or a lazy transpose) or is laid out in column major order.
+func rowMajor(t tensor.Tensor) tensor.Tensor {
+	d, ok := t.(*tensor.Dense)
+	if !ok || d.IsMasked() || !(d.RequiresIterator() || d.DataOrder().IsColMajor()) {
+		return t
+	}
+	retVal := tensor.New(tensor.WithShape(d.Shape().Clone()...), tensor.Of(d.Dtype()))
+	it := d.Iterator()
+	var at int
+	for i, err := it.Next(); err == nil; i, err = it.Next() {
+		retVal.Set(at, d.Get(i))
+		at++
+	}
+	return retVal
+}
+
 func tensorClose(a, b tensor.Tensor) bool {
 	aDt := a.Dtype()
 	bDt := b.Dtype()
-	if aDt != bDt {
+	if aDt != bDt || !a.Shape().Eq(b.Shape()) {
 		return false
 	}
 
+	a, b = rowMajor(a), rowMajor(b)
 	switch aDt {
 	case tensor.Float64:
 		aFs := a.Data().([]float64)
diff --git a/values_utils.go b/values_utils.go
index abf4baa..2d72ad5 100644
--- a/values_utils.go
+++ b/values_utils.go
@@ -53,7 +53,7 @@ func ValueEq(a, b Value) bool {
 		return false
 	case tensor.Tensor:
 		if bt, ok := b.(tensor.Tensor); ok {
-			return at.Eq(bt)
+			return rowMajor(at).Eq(rowMajor(bt))
 			//log.Printf("at.info %#v, bt.info %#v", a.(*tensor.Dense).Info(), b.(*tensor.Dense).Info())
 		}
 		return false
-- 
2.43.0


From c8b9d85ed217718b01360b03db14dfd92cae3f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:45 +0000
Subject: [PATCH 084/110] fix: refuse negative and repeated axes in reductions

---
 op_reduction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_reduction.go b/op_reduction.go
index 88f55a8..c9a6ed9 100644
--- a/op_reduction.go
+++ b/op_reduction.go
@@ -50,7 +50,7 @@ func reductionInferShape(along []int, in tensor.Shape) (tensor.Shape, error) {
 	}
 	shape := in.Clone()
 	for _, d := range along {
-		if d >= shape.Dims() {
+		if d < 0 || d >= shape.Dims() || shape[d] == 0 {
 			return nil, fmt.Errorf("shape error, along %d is not a valid axis for shape %v", d, in)
 		}
 		shape[d] = 0
-- 
2.43.0


From 0f8d5f48b70a16a3ec5fd65c351dda27f09dec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:09:58 +0000
Subject: [PATCH 085/110] fix: refuse a negative axis in Concat

---
 operations.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operations.go b/operations.go
index 5b43c3d..95c3c9a 100644
--- a/operations.go
+++ b/operations.go
@@ -520,7 +520,7 @@ func Concat(axis int, ns ...*Node) (retVal *Node, err error) {
 		return
 	}
 
-	if axis >= d {
+	if axis < 0 || axis >= d {
 		err = errors.Errorf("Invalid axis. Nodes have %d dimensions. Axis is %d", d, axis)
 		return
 	}
-- 
2.43.0


From 20229633b120b2bd249dc6b05b465285e3213019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:10 +0000
Subject: [PATCH 086/110] fix: validate the coordinates given to At

---
 operations.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/operations.go b/operations.go
index 95c3c9a..aad9a68 100644
--- a/operations.go
+++ b/operations.go
@@ -202,6 +202,14 @@ func At(a *Node, coords ...int) (retVal *Node, err error) {
 	}
 
 	dims := a.Dims()
+	if len(coords) != dims {
+		return nil, errors.Errorf("Expected %d coordinates. Got %v instead", dims, coords)
+	}
+	for i, c := range coords {
+		if c < 0 || c >= a.Shape()[i] {
+			return nil, errors.Errorf("Coordinates %v are outside the shape %v", coords, a.Shape())
+		}
+	}
 	op := atOp{
 		coordinates: coords,
 		d:           dims,
-- 
2.43.0


From 0e9a0b1fdb82f16e8f22b57fc1c2fb36e60b6fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:23 +0000
Subject: [PATCH 087/110] fix: refuse axes that are no permutation in Transpose

---
 operations.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/operations.go b/operations.go
index aad9a68..76d4328 100644
--- a/operations.go
+++ b/operations.go
@@ -494,6 +494,14 @@ func Transpose(n *Node, axes ...int) (retVal *Node, err error) {
 		}
 	}
 
+	seen := make([]bool, dims)
+	for _, axis := range axes {
+		if axis < 0 || axis >= dims || seen[axis] {
+			return nil, errors.Errorf("%v is not a permutation of the axes of shape %v", axes, n.shape)
+		}
+		seen[axis] = true
+	}
+
 	// if axes is 0, 1, 2, 3... then no op
 	if monotonic, incr1 := tensor.IsMonotonicInts(axes); monotonic && incr1 && axes[0] == 0 {
 		retVal = n
-- 
2.43.0


From c57c1a5bf450852bc1b9ca423cde87c4f2a2f70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:35 +0000
Subject: [PATCH 088/110] fix: shape of the sum of a vector and a row vector

---
 operatorPointwise_binary.go | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/operatorPointwise_binary.go b/operatorPointwise_binary.go
index 32378bc..6253bab 100644
--- a/operatorPointwise_binary.go
+++ b/operatorPointwise_binary.go
@@ -302,11 +302,27 @@ func (o tBinOp) binOpType() ʘBinaryOperatorType { return o.ʘBinaryOperatorType
 func (o tBinOp) String() string                 { return o.ʘBinaryOperatorType.String() }
 func (o tBinOp) isArith() bool                  { return o.ʘBinaryOperatorType.isArith() }
 
-func (o tBinOp) Do(same bool, inputs ...Value) (Value, error) {
+func (o tBinOp) Do(same bool, inputs ...Value) (retVal Value, err error) {
 	if same {
-		return o.do(inputs, tensor.AsSameType())
+		retVal, err = o.do(inputs, tensor.AsSameType())
+	} else {
+		retVal, err = o.do(inputs)
+	}
+	if err != nil {
+		return nil, err
+	}
+
+	// when a vector is combined with a row or a column vector, the result has the shape of the latter
+	if t, ok := retVal.(tensor.Tensor); ok {
+		for _, in := range inputs {
+			if s := in.Shape(); s.Dims() > t.Dims() && t.Shape().Eq(s) {
+				if err = t.Reshape(s.Clone()...); err != nil {
+					return nil, errors.Wrapf(err, "Cannot reshape the result of %v", o)
+				}
+			}
+		}
 	}
-	return o.do(inputs)
+	return retVal, nil
 }
 
 func (o tBinOp) UnsafeDo(retSame bool, inputs ...Value) (Value, error) {
-- 
2.43.0


From 2177d8302d70c670d71df1955cb2b1be2c6ff116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:10:48 +0000
Subject: [PATCH 089/110] fix: refuse an axis outside the shape in SoftMax

---
 op_softmax.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/op_softmax.go b/op_softmax.go
index 0cd0988..641bee7 100644
--- a/op_softmax.go
+++ b/op_softmax.go
@@ -56,7 +56,11 @@ func (op *softmaxOp) Hashcode() uint32 { return simpleHash(op) }
 func (op *softmaxOp) String() string { return fmt.Sprintf("Softmax{%d, %v}()", op.axis, op.isLog) }
 
 func (op *softmaxOp) InferShape(inputs ...DimSizer) (tensor.Shape, error) {
-	return inputs[0].(tensor.Shape), nil
+	shape := inputs[0].(tensor.Shape)
+	if op.axis < -1 || (op.axis >= shape.Dims() && op.axis > 0) {
+		return nil, errors.Errorf("Axis %d is outside the shape %v", op.axis, shape)
+	}
+	return shape, nil
 }
 
 func (op *softmaxOp) Type() hm.Type {
-- 
2.43.0


From 4de32dc1e4b53de191adc3cff008449c64b5ee87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:11:54 +0000
Subject: [PATCH 090/110] fix: leave unbound values to the garbage collector

---
 node.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/node.go b/node.go
index 74f6281..694915a 100644
--- a/node.go
+++ b/node.go
@@ -719,17 +719,7 @@ func (n *Node) bindCopy(v Value) (err error) {
 
 // unbind releases the values back to the pool
 func (n *Node) unbind() {
-	if n.boundTo == nil {
-		return
-	}
-
-	if dv, ok := n.boundTo.(*dualValue); ok {
-		returnDV(dv)
-	}
-
-	if t, ok := n.boundTo.(tensor.Tensor); ok {
-		returnTensor(t)
-	}
+	// the value may be shared with other nodes or belong to the caller, so it is left to the garbage collector
 	n.boundTo = nil
 }
 
-- 
2.43.0


From 8a148a0bca045e54f77940a292419d7f1143bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:07 +0000
Subject: [PATCH 091/110] fix: refuse a value and a shape that contradict each
 other on a new node

---
 node.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 694915a..e8edd9c 100644
--- a/node.go
+++ b/node.go
@@ -155,10 +155,12 @@ func WithValue(any interface{}) NodeConsOpt {
 
 		}
 
-		n.bind(v)
 		if n.shape == nil {
 			n.shape = v.Shape()
+		} else if !n.shape.Eq(v.Shape()) && !(scalarEquiv(n.shape) && scalarEquiv(v.Shape())) {
+			panic(fmt.Sprintf("ShapeError: Want %v, Got %v instead", n.shape, v.Shape()))
 		}
+		n.bind(v)
 	}
 	return f
 }
@@ -224,6 +226,9 @@ func WithShape(shp ...int) NodeConsOpt {
 		if !acceptVec && !sameDims && !acceptScalar {
 			panic(fmt.Sprintf("Node %v, has %d dimensions(Shape: %v). Input shape is %v, which has %d dimensions", n, n.Dims(), n.shape, s, s.Dims()))
 		}
+		if n.boundTo != nil && !s.Eq(n.boundTo.Shape()) && !(scalarEquiv(s) && scalarEquiv(n.boundTo.Shape())) {
+			panic(fmt.Sprintf("Node %v has a value of shape %v. Input shape is %v", n, n.boundTo.Shape(), s))
+		}
 		n.shape = s
 	}
 	return f
-- 
2.43.0


From eb54238236691d5d14683dc40ffae88c83d9a1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:19 +0000
Subject: [PATCH 092/110] fix: let the Ones initialiser fill scalars

---
 weights.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/weights.go b/weights.go
index 1df5ac9..2bbfaa7 100644
--- a/weights.go
+++ b/weights.go
@@ -40,7 +40,9 @@ func Zeroes() InitWFn {
 
 // Ones creates an InitWfn that populates a Value with ones. See Zeroes() for more explanation.
 func Ones() InitWFn {
-	return func(dt tensor.Dtype, s ...int) interface{} { return ones(dt, s...).Data() }
+	return func(dt tensor.Dtype, s ...int) interface{} {
+		return tensor.Ones(dt, tensor.Shape(s).TotalSize()).Data()
+	}
 }
 
 // RangedFrom creates an InitWFn that populates a Value starting with the provided start, increamenting the number for each element in the value by 1
-- 
2.43.0


From 32d8fe57a972109f93a0797910037f43245476b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:42 +0000
Subject: [PATCH 093/110] fix: process batched BLAS calls that do not fill the
 queue

---
 blase/work.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/blase/work.go b/blase/work.go
index 62a5319..764df68 100644
--- a/blase/work.go
+++ b/blase/work.go
@@ -143,15 +143,15 @@ func (ctx *context) DoWork() {
 				break enqueue
 
 			}
+		}
 
-			for i, c := range ctx.queue {
-				ctx.fns[i] = *(*C.struct_fnargs)(unsafe.Pointer(c.args))
-			}
-			C.process(&ctx.fns[0], C.int(len(ctx.queue)))
-
-			// clear queue
-			ctx.queue = ctx.queue[:0]
+		for i, c := range ctx.queue {
+			ctx.fns[i] = *(*C.struct_fnargs)(unsafe.Pointer(c.args))
 		}
+		C.process(&ctx.fns[0], C.int(len(ctx.queue)))
+
+		// clear queue
+		ctx.queue = ctx.queue[:0]
 	}
 }
 
-- 
2.43.0


From 7be2045cc9f1aeb31ddf2b85becdad9be0cdb64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:37:47 +0000
Subject: [PATCH 094/110] fix: pass the number of columns to the batched Dgemv

---
 blase/blas.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blase/blas.go b/blase/blas.go
index 5aaeeb5..d809b1d 100644
--- a/blase/blas.go
+++ b/blase/blas.go
@@ -75,7 +75,7 @@ func (ctx *context) Dgemv(tA blas.Transpose, m int, n int, alpha float64, a []fl
 		order: C.cblas_order(rowMajor),
 		tA:    C.cblas_transpose(tA),
 		i0:    C.int(m),
-		i1:    C.int(m),
+		i1:    C.int(n),
 		d0:    C.double(alpha),
 		a0:    uintptr(unsafe.Pointer(&a[0])),
 		i2:    C.int(lda),
-- 
2.43.0


From 241932971331a870d731f575fae4174aaf6508b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:40:52 +0000
Subject: [PATCH 095/110] fix: pass CBLAS transposition flags in batched calls

---
 blase/blas.go | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/blase/blas.go b/blase/blas.go
index d809b1d..56cb5b0 100644
--- a/blase/blas.go
+++ b/blase/blas.go
@@ -47,12 +47,25 @@ import (
 
 const rowMajor = 101 // rowMajor and rowMajor ONLY
 
+// cblasTranspose converts a transposition flag to the value CBLAS uses.
+func cblasTranspose(t blas.Transpose) C.cblas_transpose {
+	switch t {
+	case blas.NoTrans:
+		return C.CblasNoTrans
+	case blas.Trans:
+		return C.CblasTrans
+	case blas.ConjTrans:
+		return C.CblasConjTrans
+	}
+	panic("blase: illegal transpose")
+}
+
 func (ctx *context) Dgemm(tA blas.Transpose, tB blas.Transpose, m int, n int, k int, alpha float64, a []float64, lda int, b []float64, ldb int, beta float64, c []float64, ldc int) {
 	fn := &fnargs{
 		fn:    C.cblasFn(fn_cblas_dgemm),
 		order: C.cblas_order(rowMajor),
-		tA:    C.cblas_transpose(tA),
-		tB:    C.cblas_transpose(tB),
+		tA:    cblasTranspose(tA),
+		tB:    cblasTranspose(tB),
 		i0:    C.int(m),
 		i1:    C.int(n),
 		i2:    C.int(k),
@@ -73,7 +86,7 @@ func (ctx *context) Dgemv(tA blas.Transpose, m int, n int, alpha float64, a []fl
 	fn := &fnargs{
 		fn:    C.cblasFn(fn_cblas_dgemv),
 		order: C.cblas_order(rowMajor),
-		tA:    C.cblas_transpose(tA),
+		tA:    cblasTranspose(tA),
 		i0:    C.int(m),
 		i1:    C.int(n),
 		d0:    C.double(alpha),
-- 
2.43.0


From 6c8e1d729579df0be5ca440176bc38246dca8d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:16 +0000
Subject: [PATCH 096/110] fix: keep the operands of batched BLAS calls alive
 until they are processed

---
 blase/blas.go | 4 ++--
 blase/work.go | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/blase/blas.go b/blase/blas.go
index 56cb5b0..f88d53c 100644
--- a/blase/blas.go
+++ b/blase/blas.go
@@ -78,7 +78,7 @@ func (ctx *context) Dgemm(tA blas.Transpose, tB blas.Transpose, m int, n int, k
 		a2:    uintptr(unsafe.Pointer(&c[0])),
 		i5:    C.int(ldc),
 	}
-	call := call{args: fn, blocking: false}
+	call := call{args: fn, operands: [3][]float64{a, b, c}, blocking: false}
 	ctx.enqueue(call)
 }
 
@@ -106,6 +106,6 @@ func (ctx *context) Dgemv(tA blas.Transpose, m int, n int, alpha float64, a []fl
 	// fmt.Println("Slept")
 	// ctx.Implementation.Dgemv(tA, m, n, alpha, a, lda, x, incX, beta, y, incY)
 
-	call := call{args: fn, blocking: false}
+	call := call{args: fn, operands: [3][]float64{a, x, y}, blocking: false}
 	ctx.enqueue(call)
 }
diff --git a/blase/work.go b/blase/work.go
index 764df68..7ef1e09 100644
--- a/blase/work.go
+++ b/blase/work.go
@@ -57,6 +57,10 @@ type Worker interface {
 type call struct {
 	args *fnargs
 
+	// operands are the slices that args points to. They are kept here because the garbage collector
+	// does not see the pointers in args, and the caller need not hold on to the slices until the call is processed.
+	operands [3][]float64
+
 	/*
 		this flag only applies to any BLAS function that has a return value:
 			cblas_sdsdot
-- 
2.43.0


From c9e6dc9f812587230b674ba164f342c8b462b1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:41:35 +0000
Subject: [PATCH 097/110] fix: let several goroutines flush the batched BLAS
 calls

---
 blase/work.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blase/work.go b/blase/work.go
index 7ef1e09..046b0db 100644
--- a/blase/work.go
+++ b/blase/work.go
@@ -27,6 +27,7 @@ uintptr_t process(struct fnargs* fa, int count) {
 */
 import "C"
 import (
+	"sync"
 	"unsafe"
 
 	"gonum.org/v1/gonum/blas"
@@ -99,6 +100,7 @@ type context struct {
 	workAvailable chan struct{}
 	work          chan call
 
+	mu    sync.Mutex // guards fns and queue
 	fns   []C.struct_fnargs
 	queue []call
 }
@@ -127,7 +129,11 @@ func (ctx *context) enqueue(c call) {
 
 // DoWork retrieves as many work items as possible, puts them into a queue, and then processes the queue.
 // The function may return without doing any work.
+// It is safe to call it from several goroutines: work that another one has retrieved is done when it returns.
 func (ctx *context) DoWork() {
+	ctx.mu.Lock()
+	defer ctx.mu.Unlock()
+
 	for {
 		select {
 		case w := <-ctx.work:
-- 
2.43.0


From 21f0a656ae3015da07c64f5c4fbab4638f1b196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:47:38 +0000
Subject: [PATCH 098/110] fix: average pooling divides by the size of the
 window and spreads the gradient over it

---
 op_avg_pool.go | 49 ++++++++++++-------------------------------------
 1 file changed, 12 insertions(+), 37 deletions(-)

diff --git a/op_avg_pool.go b/op_avg_pool.go
index df45107..39b6f49 100644
--- a/op_avg_pool.go
+++ b/op_avg_pool.go
@@ -12,7 +12,7 @@ import (
 
 // AveragePool1D applies a average pool on the node x.
 func AveragePool1D(x *Node, kernel, pad, stride int) (*Node, error) {
-	return MaxPool2D(x, tensor.Shape{1, kernel}, []int{0, pad}, []int{1, stride})
+	return AveragePool2D(x, tensor.Shape{1, kernel}, []int{0, pad}, []int{1, stride})
 }
 
 // AveragePool2D applies the average operation to the given input
@@ -216,10 +216,11 @@ func (op *avgPoolOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (e
 	op2 = *op
 	diff := &avgPoolDiffOp{op2}
 
-	if _, err = diff.UsePreallocDo(inputDV.d, inputDV.Value, outDV.Value, outDV.d); err != nil {
+	var d Value
+	if d, err = diff.Do(inputDV.Value, outDV.Value, outDV.d); err != nil {
 		return errors.Wrapf(err, doFail, diff)
 	}
-	return
+	return addDeriv(inputDV, d)
 }
 
 func (op *avgPoolOp) checkInput(inputs ...Value) (tensor.Tensor, error) {
@@ -319,7 +320,7 @@ func (op *avgPoolOp) f32s(batches, channels, outH, outW, inH, inW,
 						}
 					}
 
-					outData[poolIndex] /= float32(inW)
+					outData[poolIndex] /= float32(op.h * op.w)
 				}
 			}
 			// skip by strides
@@ -370,7 +371,7 @@ func (op *avgPoolOp) f64s(batches, channels, outH, outW, inH, inW,
 						}
 					}
 
-					outData[poolIndex] /= float64(inW)
+					outData[poolIndex] /= float64(op.h * op.w)
 				}
 			}
 			// skip by strides
@@ -518,15 +519,6 @@ func (op *avgPoolDiffOp) f32s(batches, channels, pooledH, pooledW, inH, inW int,
 		for c := 0; c < channels; c++ {
 			for ph := 0; ph < pooledH; ph++ {
 				for pw := 0; pw < pooledW; pw++ {
-					index := ph*pooledW + pw
-					inIndex := maskData[index]
-
-					inDiffData[inIndex] += outDiffData[index]
-				}
-			}
-
-			for ph := 0; ph < inH; ph++ {
-				for pw := 0; pw < inW; pw++ {
 					hStart := ph*op.strideH - padH
 					wStart := pw*op.strideW - padW
 					hEnd := minInt(hStart+op.h, inH)
@@ -534,18 +526,14 @@ func (op *avgPoolDiffOp) f32s(batches, channels, pooledH, pooledW, inH, inW int,
 					hStart = maxInt(hStart, 0)
 					wStart = maxInt(wStart, 0)
 
-					poolIndex := ph*inW + pw
-					total := float32(0.0)
+					// every element of the window has the same share in the average
+					share := outDiffData[ph*pooledW+pw] / float32(op.h*op.w)
 
 					for hi := hStart; hi < hEnd; hi++ {
 						for wi := wStart; wi < wEnd; wi++ {
-							i := hi*inW + wi
-
-							total += inDiffData[i]
+							inDiffData[hi*inW+wi] += share
 						}
 					}
-
-					inDiffData[poolIndex] = total / float32(inW)
 				}
 			}
 
@@ -578,15 +566,6 @@ func (op *avgPoolDiffOp) f64s(batches, channels, pooledH, pooledW, inH, inW int,
 		for c := 0; c < channels; c++ {
 			for ph := 0; ph < pooledH; ph++ {
 				for pw := 0; pw < pooledW; pw++ {
-					index := ph*pooledW + pw
-					inIndex := maskData[index]
-
-					inDiffData[inIndex] += outDiffData[index]
-				}
-			}
-
-			for ph := 0; ph < inH; ph++ {
-				for pw := 0; pw < inW; pw++ {
 					hStart := ph*op.strideH - padH
 					wStart := pw*op.strideW - padW
 					hEnd := minInt(hStart+op.h, inH)
@@ -594,18 +573,14 @@ func (op *avgPoolDiffOp) f64s(batches, channels, pooledH, pooledW, inH, inW int,
 					hStart = maxInt(hStart, 0)
 					wStart = maxInt(wStart, 0)
 
-					poolIndex := ph*inW + pw
-					total := float64(0.0)
+					// every element of the window has the same share in the average
+					share := outDiffData[ph*pooledW+pw] / float64(op.h*op.w)
 
 					for hi := hStart; hi < hEnd; hi++ {
 						for wi := wStart; wi < wEnd; wi++ {
-							i := hi*inW + wi
-
-							total += inDiffData[i]
+							inDiffData[hi*inW+wi] += share
 						}
 					}
-
-					inDiffData[poolIndex] = total / float64(inW)
 				}
 			}
 
-- 
2.43.0


From 8fc0d92b42a4b46b11f68c0c349ff7d2085bf3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:48:58 +0000
Subject: [PATCH 099/110] fix: add the second moments of the chunks in group
 normalisation

---
 op_group_norm.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_group_norm.go b/op_group_norm.go
index 96b372b..694792b 100644
--- a/op_group_norm.go
+++ b/op_group_norm.go
@@ -219,7 +219,7 @@ func (op *GroupNormOp) rowwiseMomentsF64(x []float64, n int, ddof int) (mean flo
 	}
 
 	for i := 1; i < depth; i++ {
-		op.addMomentsVecF64(m0stk[i], m1stk[i], m2stk[i], &m0stk[0], m1stk[0], m1stk[0])
+		op.addMomentsVecF64(m0stk[i], m1stk[i], m2stk[i], &m0stk[0], m1stk[0], m2stk[0])
 	}
 
 	var (
@@ -388,7 +388,7 @@ func (op *GroupNormOp) rowwiseMomentsF32(x []float32, n int, ddof int) (mean flo
 	}
 
 	for i := 1; i < depth; i++ {
-		op.addMomentsVecF32(m0stk[i], m1stk[i], m2stk[i], &m0stk[0], m1stk[0], m1stk[0])
+		op.addMomentsVecF32(m0stk[i], m1stk[i], m2stk[i], &m0stk[0], m1stk[0], m2stk[0])
 	}
 
 	var (
-- 
2.43.0


From b5ec1303f3d9ea9f1c6866866e21ed43d8b13c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:49:12 +0000
Subject: [PATCH 100/110] fix: differentiate group normalisation by the
 gradient of its output on the lisp machine

---
 op_group_norm.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/op_group_norm.go b/op_group_norm.go
index 694792b..1bebdf6 100644
--- a/op_group_norm.go
+++ b/op_group_norm.go
@@ -469,22 +469,14 @@ func (op *GroupNormOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node)
 
 	odv := output.boundTo.(*dualValue)
 	idv := inputs[0].boundTo.(*dualValue)
-	idvd := idv.d.(*tensor.Dense)
 	diffOp := &groupNormDiffOp{op}
 
-	result, err := diffOp.Do(idv.Value, odv.Value, odv.d)
+	result, err := diffOp.Do(idv.Value, odv.d)
 	if err != nil {
 		return err
 	}
 
-	sum, err := idvd.Add(result.(*tensor.Dense), tensor.UseUnsafe())
-	if err != nil {
-		return err
-	}
-
-	odv.d = sum
-
-	return nil
+	return addDeriv(idv, result)
 }
 
 // SymDiff applies the diff op. Implementation for SDOp interface.
-- 
2.43.0


From a1841fee57f4a174ee746542903488533fbb81ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:50:59 +0000
Subject: [PATCH 101/110] fix: difference and intersection of nodes leave the
 memory behind the slice alone

---
 collections.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/collections.go b/collections.go
index 5f053cf..8fb8e78 100644
--- a/collections.go
+++ b/collections.go
@@ -118,7 +118,7 @@ func (ns Nodes) Format(s fmt.State, c rune) {
 func (ns Nodes) Difference(other Nodes) Nodes {
 	sort.Sort(ns)
 	sort.Sort(other)
-	s := append(ns, other...)
+	s := append(ns[:len(ns):len(ns)], other...) // never into the memory behind ns
 	count := set.Diff(s, len(ns))
 	return s[:count]
 }
@@ -127,7 +127,7 @@ func (ns Nodes) Difference(other Nodes) Nodes {
 func (ns Nodes) Intersect(other Nodes) Nodes {
 	sort.Sort(ns)
 	sort.Sort(other)
-	s := append(ns, other...)
+	s := append(ns[:len(ns):len(ns)], other...) // never into the memory behind ns
 	count := set.Inter(s, len(ns))
 	return s[:count]
 }
-- 
2.43.0


From 9a69a138a2ec8b49e93b7d8ba4cbb60feabf0a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:52:29 +0000
Subject: [PATCH 102/110] fix: converting a scalar gives a scalar

---
 op_types.go | 24 ++++--------------------
 1 file changed, 4 insertions(+), 20 deletions(-)

diff --git a/op_types.go b/op_types.go
index 5d9f6e6..d4efb7c 100644
--- a/op_types.go
+++ b/op_types.go
@@ -103,11 +103,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = int(aData[i])
 			}
 		case float64:
-			retVal = tensor.New(
-				tensor.Of(tensor.Int),
-				tensor.WithShape(1),
-				tensor.WithBacking([]int{int(aData)}),
-			)
+			retVal = NewI(int(aData))
 		}
 	case op.from == tensor.Float32 && op.to == tensor.Int:
 		switch aData := a.Data().(type) {
@@ -117,11 +113,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = int(aData[i])
 			}
 		case float32:
-			retVal = tensor.New(
-				tensor.Of(tensor.Int),
-				tensor.WithShape(1),
-				tensor.WithBacking([]int{int(aData)}),
-			)
+			retVal = NewI(int(aData))
 		}
 	case op.from == tensor.Int && op.to == tensor.Float64:
 		switch aData := a.Data().(type) {
@@ -131,11 +123,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = float64(aData[i])
 			}
 		case int:
-			retVal = tensor.New(
-				tensor.Of(tensor.Float64),
-				tensor.WithShape(1),
-				tensor.WithBacking([]float64{float64(aData)}),
-			)
+			retVal = NewF64(float64(aData))
 		}
 	case op.from == tensor.Int && op.to == tensor.Float32:
 		switch aData := a.Data().(type) {
@@ -145,11 +133,7 @@ func (op *dtConvOp) UsePreallocDo(prealloc Value, inputs ...Value) (Value, error
 				retData[i] = float32(aData[i])
 			}
 		case int:
-			retVal = tensor.New(
-				tensor.Of(tensor.Float32),
-				tensor.WithShape(1),
-				tensor.WithBacking([]float32{float32(aData)}),
-			)
+			retVal = NewF32(float32(aData))
 		}
 	default:
 		return nil, errors.Errorf("Cannot do conversion %v", op.Type())
-- 
2.43.0


From 10002f9f4357a3218560431e6bef0acb2e9b44fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:54:17 +0000
Subject: [PATCH 103/110] fix: export the clusters of layers in a fixed order

---
 encoding/dot/exprsubgraph.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/encoding/dot/exprsubgraph.go b/encoding/dot/exprsubgraph.go
index d65764e..6788da2 100644
--- a/encoding/dot/exprsubgraph.go
+++ b/encoding/dot/exprsubgraph.go
@@ -1,6 +1,8 @@
 package dot
 
 import (
+	"sort"
+
 	"gonum.org/v1/gonum/graph"
 	"gonum.org/v1/gonum/graph/encoding"
 	gonumDot "gonum.org/v1/gonum/graph/encoding/dot"
@@ -61,8 +63,13 @@ func (g exprSubGraph) DOTAttributers() (graph, node, edge encoding.Attributer) {
 // Structure fulfils the dot.Structurer interface.
 func (g exprSubGraph) Structure() []gonumDot.Graph {
 	output := make([]gonumDot.Graph, 0, len(g.subs))
-	for _, subg := range g.subs {
-		output = append(output, subg)
+	var keys internalEncoding.Groups
+	for k := range g.subs {
+		keys = append(keys, k)
+	}
+	sort.Sort(keys)
+	for _, k := range keys {
+		output = append(output, g.subs[k])
 	}
 	return output
 }
-- 
2.43.0


From 2d614af7708a358920b245f49a8368e46ef82b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:03:42 +0000
Subject: [PATCH 104/110] fix: the detection layer uses the anchors its masks
 name

---
 op_yolo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_yolo.go b/op_yolo.go
index 9ace96e..beadffa 100644
--- a/op_yolo.go
+++ b/op_yolo.go
@@ -165,7 +165,7 @@ func (op *yoloOp) Do(inputs ...Value) (retVal Value, err error) {
 			if op.masks[i] >= numAnchors {
 				return nil, fmt.Errorf("Incorrect mask %v for anchors in YOLO layer", op.masks)
 			}
-			currentAnchors = append(currentAnchors, op.anchors[i*2], op.anchors[i*2+1])
+			currentAnchors = append(currentAnchors, op.anchors[op.masks[i]*2], op.anchors[op.masks[i]*2+1])
 		}
 		// evaluateYOLO_f32 works in place
 		inputTensor = inputTensor.Clone().(tensor.Tensor)
@@ -196,7 +196,7 @@ func (op *yoloOp) Do(inputs ...Value) (retVal Value, err error) {
 		if op.masks[i] >= (len(op.anchors) / 2) {
 			return nil, fmt.Errorf("Incorrect mask %v for anchors in YOLO layer [Training mode]", op.masks)
 		}
-		currentAnchors = append(currentAnchors, op.anchors[i*2], op.anchors[i*2+1])
+		currentAnchors = append(currentAnchors, op.anchors[op.masks[i]*2], op.anchors[op.masks[i]*2+1])
 	}
 
 	targets := []float32{}
-- 
2.43.0


From eca7ce5c93b7a584a2297fa63bb285e69f6e7a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:04:15 +0000
Subject: [PATCH 105/110] fix: the detection layer takes batches

---
 op_yolo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op_yolo.go b/op_yolo.go
index beadffa..c2b3794 100644
--- a/op_yolo.go
+++ b/op_yolo.go
@@ -358,11 +358,11 @@ func (op *yoloOp) evaluateYOLO_f32(input tensor.Tensor, batchSize, stride, grid,
 	}
 
 	anchors := []float32{}
-	for i := 0; i < grid*grid; i++ {
+	for i := 0; i < batchSize*grid*grid; i++ {
 		anchors = append(anchors, currentAnchors...)
 	}
 
-	anchorsTensor := tensor.New(tensor.Of(inputNumericType), tensor.WithShape(1, grid*grid*numAnchors, 2))
+	anchorsTensor := tensor.New(tensor.Of(inputNumericType), tensor.WithShape(batchSize, grid*grid*numAnchors, 2))
 	for i := range anchors {
 		anchorsTensor.Set(i, anchors[i])
 	}
-- 
2.43.0


From 6a270c2044c1f96877b8118fb55937c50117aa4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:33:31 +0000
Subject: [PATCH 106/110] fix: name the node that failed in errors of the
 interpreting machine

---
 vm_genera.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/vm_genera.go b/vm_genera.go
index ea2e151..94ccee4 100644
--- a/vm_genera.go
+++ b/vm_genera.go
@@ -263,13 +263,12 @@ func (m *lispMachine) runall(errChan chan error, doneChan chan struct{}) {
 		goto backward
 	}
 
-	for err = nil; err == nil && m.fwd < len(m.sorted); m.fwd++ {
-		err = m.forward()
-	}
-
-	if err != nil {
-		errChan <- err
-		return
+	for ; m.fwd < len(m.sorted); m.fwd++ {
+		if err = m.forward(); err != nil {
+			// m.fwd stays at the node that failed: RunAll reports it
+			errChan <- err
+			return
+		}
 	}
 
 	// send a synchronous signal, do all (if any) CUDA work before continuing with backprop
-- 
2.43.0


From ea86742357c826312e4d219e1a9bb619a3368f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:31:04 +0000
Subject: [PATCH 107/110] fix: uniform Glorot weights in single precision are
 uniform

---
 weights.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/weights.go b/weights.go
index 2bbfaa7..0dda149 100644
--- a/weights.go
+++ b/weights.go
@@ -437,7 +437,7 @@ func GlorotEtAlU64(gain float64, s ...int) []float64 {
 //		math.Sqrt(2.0) for gain for weights that will be used in ReLU units
 //		math.Sqrt(2.0 / (1+alpha*alpha)) for ReLU that are leaky with alpha
 func GlorotEtAlU32(gain float64, s ...int) []float32 {
-	f64 := GlorotEtAlN64(gain, s...)
+	f64 := GlorotEtAlU64(gain, s...)
 	retVal := make([]float32, len(f64))
 	for i, v := range f64 {
 		retVal[i] = float32(v)
-- 
2.43.0


From 0135bfd4ecd61770641a03f0a9203f7c8dda1669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:42:20 +0000
Subject: [PATCH 108/110] fix: repeat integer tensors of one element into
 preallocated memory

---
 op_tensor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/op_tensor.go b/op_tensor.go
index 53f00f4..aa565f6 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -454,6 +454,11 @@ func (op repeatOp) UsePreallocDo(prealloc Value, inputs ...Value) (retVal Value,
 				for i := range ptd {
 					ptd[i] = dt[0]
 				}
+			default:
+				if rep == 1 {
+					return Copy(pt, iv)
+				}
+				return tensor.RepeatReuse(iv, pt, op.along, rep)
 			}
 			return pt, nil
 		}
-- 
2.43.0


From df12d51a8954b27b5d04f2d3dd818ab510631b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:42:33 +0000
Subject: [PATCH 109/110] fix: a reshaped scalar does not share memory with the
 scalar

---
 op_tensor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/op_tensor.go b/op_tensor.go
index aa565f6..228b3d4 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1219,10 +1219,14 @@ func (op reshapeOp) Do(vals ...Value) (Value, error) {
 		}
 		return val, nil
 	case Scalar:
+		// as above: the result must not share its memory with the input
+		if val, err = CloneValue(vals[0]); err != nil {
+			return nil, errors.Wrapf(err, cloneFail, vals[0])
+		}
 		if op.to.IsScalar() {
-			return CloneValue(vals[0])
+			return val, nil
 		}
-		v0 := ScalarAsTensor(vals[0], op.to.Dims(), nil)
+		v0 := ScalarAsTensor(val, op.to.Dims(), nil)
 		if err := v0.(tensor.Tensor).Reshape(op.to...); err != nil {
 			return nil, err
 		}
-- 
2.43.0


From b9481a7e78ff8c139a1a0ba635dd444e388dc190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:42:46 +0000
Subject: [PATCH 110/110] fix: differentiate a reshape to a scalar on the Lisp
 machine

---
 op_tensor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/op_tensor.go b/op_tensor.go
index 228b3d4..c144982 100644
--- a/op_tensor.go
+++ b/op_tensor.go
@@ -1314,7 +1314,7 @@ func (op reshapeOp) DoDiff(ctx ExecutionContext, inputs Nodes, output *Node) (er
 	if grad, err = CloneValue(grad); err != nil {
 		return errors.Wrap(err, cloneFail)
 	}
-	T := grad.(tensor.Tensor)
+	T := ScalarAsTensor(grad, op.from.Dims(), nil).(tensor.Tensor)
 	if err = T.Reshape(op.from...); err != nil {
 		return
 	}
-- 
2.43.0

