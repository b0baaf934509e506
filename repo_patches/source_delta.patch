From 878a11b59013f06ffb242debff2ca50c2cb5b695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 01/27] fix: SparseVector lookups compare with the last stored
 index

index() compared the wanted index with the number of stored elements, so
reads and writes past that number missed or duplicated stored elements.
---
 sparseVector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sparseVector.go b/sparseVector.go
index d7a9bf4..7a25866 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -188,7 +188,7 @@ func (s *SparseVector[T]) remove(pointer int) {
 
 func (s *SparseVector[T]) index(i int) (int, int, error) {
 	length := len(s.indices)
-	if i > length {
+	if length == 0 || i > s.indices[length-1] {
 		return length, length, nil
 	}
 
-- 
2.43.0


From 5b6f8591173f095859d7632a491152efd3b048d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:25 +0000
Subject: [PATCH 02/27] fix: DenseVector.ReSize shrinks to the requested size

---
 denseVector.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index d68a835..7709d3c 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -91,8 +91,7 @@ func (s *DenseVector[T]) ReSize(size int) int {
 		arr := make([]T, length)
 		s.values = append(s.values, arr...)
 	} else if size < s.l {
-		length := s.l - size
-		s.values = append([]T(nil), s.values[:length]...)
+		s.values = append([]T(nil), s.values[:size]...)
 	}
 
 	s.l = len(s.values)
-- 
2.43.0


From 14d9e11659f46527bd725b343438994cc760b991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:44 +0000
Subject: [PATCH 03/27] fix: recognise registered sparse formats for every
 element type

The registry was keyed on the instantiated type's name, such as
CSRMatrix[float64], so every other element type was taken for dense, and
types of the same name in other packages were confused.
---
 matrixRegistry.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/matrixRegistry.go b/matrixRegistry.go
index 7de4bcb..2f3dced 100644
--- a/matrixRegistry.go
+++ b/matrixRegistry.go
@@ -8,6 +8,7 @@ package graphblas
 import (
 	"log"
 	"reflect"
+	"strings"
 
 	"github.com/rossmerr/graphblas/constraints"
 )
@@ -16,16 +17,27 @@ var sparseMatrixRegistry = make(map[string]reflect.Type)
 
 // RegisterMatrix add's the sparse matrix to the registry
 func RegisterMatrix(matrix reflect.Type) {
-	if _, found := sparseMatrixRegistry[matrix.Name()]; found {
-		log.Panicf("Already registered Matrix %q.", matrix.Name())
+	name := registryName(matrix)
+	if _, found := sparseMatrixRegistry[name]; found {
+		log.Panicf("Already registered Matrix %q.", name)
 	}
-	sparseMatrixRegistry[matrix.Name()] = matrix
+	sparseMatrixRegistry[name] = matrix
 
 }
 
+// registryName names a type without its type arguments, a format registered
+// for one element type is registered for them all
+func registryName(t reflect.Type) string {
+	name, _, _ := strings.Cut(t.Name(), "[")
+	return t.PkgPath() + "." + name
+}
+
 // IsSparseMatrix is 's' a sparse matrix
 func IsSparseMatrix[T constraints.Type](s MatrixLogical[T]) bool {
-	t := reflect.TypeOf(s).Elem()
-	_, found := sparseMatrixRegistry[t.Name()]
+	t := reflect.TypeOf(s)
+	if t.Kind() == reflect.Pointer {
+		t = t.Elem()
+	}
+	_, found := sparseMatrixRegistry[registryName(t)]
 	return found
 }
-- 
2.43.0


From 8abd925da5f99700ab0f08d64e35ab6d16c816b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 04/27] fix: mapping a stored element of a sparse format to
 zero keeps the iterator in step

The element is removed, so the elements behind it move down by one; the
iterator skipped one, or read past the end.
---
 cscMatrix.go    | 2 ++
 csrMatrix.go    | 2 ++
 sparseVector.go | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/cscMatrix.go b/cscMatrix.go
index 587d450..bba5210 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -407,6 +407,8 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.c)
+		s.pointerStart--
+		s.pointerEnd--
 	}
 }
 
diff --git a/csrMatrix.go b/csrMatrix.go
index e6e375e..d359ea6 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -397,6 +397,8 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.index] = value
 	} else {
 		s.matrix.remove(s.index, s.r)
+		s.pointerStart--
+		s.pointerEnd--
 	}
 }
 
diff --git a/sparseVector.go b/sparseVector.go
index 7a25866..cca1b6e 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -362,6 +362,8 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 		s.matrix.values[s.old] = value
 	} else {
 		s.matrix.remove(s.old)
+		s.last--
+		s.size--
 	}
 }
 
-- 
2.43.0


From eb518b7e7546a3c3bd860360a1d7f67ec7874bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:03 +0000
Subject: [PATCH 05/27] fix: Add keeps the elements found in only one operand

With a sparse first operand the elements of the other outside its pattern
were dropped, and with a separate output so were those of a dense first
operand outside a sparse second one.
---
 operators.go | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/operators.go b/operators.go
index aa18ffa..42effd1 100644
--- a/operators.go
+++ b/operators.go
@@ -188,25 +188,37 @@ func Add[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, m
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	var iterator Enumerate[T]
-	var source Matrix[T]
-	if IsSparseMatrix[T](s) {
-		iterator = s.Enumerate()
-		source = m
-	} else {
-		iterator = m.Enumerate()
-		source = s
+	// when the matrix is the same object of s or m read the operand from a copy
+	if s == matrix {
+		s = s.Copy()
+	}
+	if m == matrix {
+		m = m.Copy()
 	}
 
-	for iterator.HasNext() {
+	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
 			return
 		default:
-			r, c, v := iterator.Next()
-			value := source.At(r, c)
+			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Set(r, c, value+v)
+				matrix.Set(r, c, value+m.At(r, c))
+			}
+		}
+	}
+
+	// a sparse matrix does not enumerate the elements only found in the other operand
+	if IsSparseMatrix[T](s) {
+		for iterator := m.Enumerate(); iterator.HasNext(); {
+			select {
+			case <-ctx.Done():
+				return
+			default:
+				r, c, value := iterator.Next()
+				if !mask.Element(r, c) {
+					matrix.Set(r, c, s.At(r, c)+value)
+				}
 			}
 		}
 	}
-- 
2.43.0


From aa75e4ff9f6187763d5abd7b368e624857c6f5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 06/27] fix: Subtract reads its second operand and keeps the
 elements found only there

The output's old content was subtracted in place of the second operand, and
elements outside the pattern of a sparse first operand were not negated.
---
 operators.go | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/operators.go b/operators.go
index 42effd1..3ca378d 100644
--- a/operators.go
+++ b/operators.go
@@ -314,6 +314,14 @@ func Subtract[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
+	// when the matrix is the same object of s or m read the operand from a copy
+	if s == matrix {
+		s = s.Copy()
+	}
+	if m == matrix {
+		m = m.Copy()
+	}
+
 	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
@@ -321,9 +329,22 @@ func Subtract[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 		default:
 			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Update(r, c, func(v T) T {
-					return value - v
-				})
+				matrix.Set(r, c, value-m.At(r, c))
+			}
+		}
+	}
+
+	// a sparse matrix does not enumerate the elements only found in the other operand
+	if IsSparseMatrix[T](s) {
+		for iterator := m.Enumerate(); iterator.HasNext(); {
+			select {
+			case <-ctx.Done():
+				return
+			default:
+				r, c, value := iterator.Next()
+				if !mask.Element(r, c) {
+					matrix.Set(r, c, s.At(r, c)-value)
+				}
 			}
 		}
 	}
-- 
2.43.0


From 45fb043a468308028f3173638df2c44f1ffb3d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 07/27] fix: Equal compares every element of a sparse and a
 dense matrix

Only the sparse matrix was enumerated, so a dense matrix with further
elements compared equal to it.
---
 operators.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/operators.go b/operators.go
index 3ca378d..1ebcae2 100644
--- a/operators.go
+++ b/operators.go
@@ -555,9 +555,9 @@ func Equal[T constraints.Type](ctx context.Context, s, m MatrixLogical[T]) bool
 	var iterator Enumerate[T]
 	var matrix MatrixLogical[T]
 
-	// Check for a sparse matrix as we want to use its Enumerate operation
-	// Because the use of the At operation on a sparse matrix is expensive
-	if isSparseMatrixS {
+	// Check for a sparse matrix, when only one is sparse we have to enumerate the other
+	// Because a sparse matrix does not enumerate its zero elements
+	if !isSparseMatrixS {
 		iterator = s.Enumerate()
 		matrix = m
 	} else {
-- 
2.43.0


From 54490d59b18fcdbdb7329bbc6ec73026556d2eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 08/27] fix: Negative negates its input

The input was ignored and the output's old content negated.
---
 operators.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/operators.go b/operators.go
index 1ebcae2..5491506 100644
--- a/operators.go
+++ b/operators.go
@@ -412,18 +412,15 @@ func Negative[T constraints.Number](ctx context.Context, s Matrix[T], mask Mask,
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), matrix.Columns())
 	}
 
-	for iterator := matrix.Map(); iterator.HasNext(); {
+	for iterator := s.Enumerate(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
 			return
 		default:
-			iterator.Map(func(r, c int, value T) T {
-				if !mask.Element(r, c) {
-					return -value
-				}
-
-				return value
-			})
+			r, c, value := iterator.Next()
+			if !mask.Element(r, c) {
+				matrix.Set(r, c, -value)
+			}
 		}
 	}
 }
-- 
2.43.0


From 66cdc83dec2e80dde3ec72d9d83977e57805964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 09/27] fix: Apply writes each result at the coordinates of its
 element

The output was written transposed.
---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index 5491506..d8a6d87 100644
--- a/operators.go
+++ b/operators.go
@@ -392,7 +392,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 		default:
 			r, c, value := iterator.Next()
 			if !mask.Element(r, c) {
-				matrix.Set(c, r, u.Apply(value))
+				matrix.Set(r, c, u.Apply(value))
 			}
 		}
 	}
-- 
2.43.0


From d56b8784dabf96de69e5989320e6cefd5d3166ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 10/27] fix: Apply in place leaves alone the elements the mask
 selects

The mask was inverted, so without a mask nothing was applied.
---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index d8a6d87..2d0d9c1 100644
--- a/operators.go
+++ b/operators.go
@@ -373,7 +373,7 @@ func Apply[T constraints.Number](ctx context.Context, in Matrix[T], mask Mask, u
 				return
 			default:
 				iterator.Map(func(r, c int, value T) T {
-					if mask.Element(r, c) {
+					if !mask.Element(r, c) {
 						return u.Apply(value)
 					}
 
-- 
2.43.0


From 2a4e5e2bef839e59b2a53fcfeaf7305a708f9e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 11/27] fix: Transpose reads the mask at the coordinates of the
 output

The mask has the shape of the output; it was read at the coordinates of the
input.
---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index 2d0d9c1..fad2ec9 100644
--- a/operators.go
+++ b/operators.go
@@ -448,7 +448,7 @@ func Transpose[T constraints.Type](ctx context.Context, s MatrixLogical[T], mask
 		default:
 			r, c, value := iterator.Next()
 
-			if !mask.Element(r, c) {
+			if !mask.Element(c, r) {
 				matrix.Set(c, r, value)
 			}
 		}
-- 
2.43.0


From 5fe055b9a25e4c5ecd486d0347930d6e279a1dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:14 +0000
Subject: [PATCH 12/27] fix: Scalar returns when its context is cancelled

The break only left the select, so the loop span for ever.
---
 operators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/operators.go b/operators.go
index fad2ec9..a75506f 100644
--- a/operators.go
+++ b/operators.go
@@ -589,7 +589,7 @@ func Scalar[T constraints.Number](ctx context.Context, s Matrix[T], alpha T) Mat
 	for iterator := matrix.Map(); iterator.HasNext(); {
 		select {
 		case <-ctx.Done():
-			break
+			return matrix
 		default:
 			iterator.Map(func(r, c int, v T) T {
 				return alpha * v
-- 
2.43.0


From d4434f1cbe65c4e2829ae28ec453f10a827a1e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 13/27] fix: reductions end when cancelled and leave no
 goroutine when refused

A cancelled reduction never signalled its monoid and blocked for ever, and
one refused for its mask's shape left the monoid's goroutine waiting.
---
 operators.go | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/operators.go b/operators.go
index a75506f..da856e6 100644
--- a/operators.go
+++ b/operators.go
@@ -637,13 +637,6 @@ func ReduceMatrixToScalar[T constraints.Number](ctx context.Context, s MatrixLog
 // ReduceMatrixToScalarWithMonoID perform's a reduction on the Matrix
 // monoid used in the element-wise reduction operation
 func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s MatrixLogical[T], monoID binaryop.MonoID[T], mask Mask) T {
-	done := make(chan struct{})
-	slice := make(chan T)
-	defer close(slice)
-	defer close(done)
-
-	out := monoID.Reduce(done, slice)
-
 	if mask == nil {
 		mask = NewEmptyMask(s.Rows(), s.Columns())
 	}
@@ -656,10 +649,18 @@ func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s
 		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), s.Columns())
 	}
 
+	done := make(chan struct{})
+	slice := make(chan T)
+	defer close(slice)
+	defer close(done)
+
+	out := monoID.Reduce(done, slice)
+
 	go func() {
 		for iterator := s.Enumerate(); iterator.HasNext(); {
 			select {
 			case <-ctx.Done():
+				done <- struct{}{}
 				return
 			default:
 				r, c, value := iterator.Next()
-- 
2.43.0


From e6929d84a2016a6c0b0d1182edb89b879c0e2a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:07 +0000
Subject: [PATCH 14/27] fix: a mask that panics during a reduction reaches the
 caller

The elements were sent from another goroutine, where a panic of the mask
ended the whole process. The caller sends them now; the monoid folds them
on its own goroutine as before.
---
 operators.go | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/operators.go b/operators.go
index da856e6..4363af9 100644
--- a/operators.go
+++ b/operators.go
@@ -656,22 +656,31 @@ func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s
 
 	out := monoID.Reduce(done, slice)
 
-	go func() {
-		for iterator := s.Enumerate(); iterator.HasNext(); {
-			select {
-			case <-ctx.Done():
-				done <- struct{}{}
-				return
-			default:
-				r, c, value := iterator.Next()
-				if !mask.Element(r, c) {
-					slice <- value
-				}
-			}
+	// signal the monoid however the elements end, so it is never left waiting
+	panicked := true
+	defer func() {
+		if panicked {
+			done <- struct{}{}
+			<-out
 		}
-		done <- struct{}{}
 	}()
 
+elements:
+	for iterator := s.Enumerate(); iterator.HasNext(); {
+		select {
+		case <-ctx.Done():
+			break elements
+		default:
+			r, c, value := iterator.Next()
+			if !mask.Element(r, c) {
+				slice <- value
+			}
+		}
+	}
+
+	panicked = false
+	done <- struct{}{}
+
 	return <-out
 
 }
-- 
2.43.0


From 115a613693afafcf91b4148706382f3cbbe9c87a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 15/27] fix: the product of a vector and a matrix has the
 vector's rows and the matrix's columns

---
 denseVector.go  | 2 +-
 sparseVector.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index 7709d3c..0be80e9 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -222,7 +222,7 @@ func (s *DenseVectorNumber[T]) Scalar(alpha T) Matrix[T] {
 
 // Multiply multiplies a vector by another vector
 func (s *DenseVectorNumber[T]) Multiply(m Matrix[T]) Matrix[T] {
-	matrix := newMatrixNumber[T](m.Rows(), s.Columns(), nil)
+	matrix := newMatrixNumber[T](s.Rows(), m.Columns(), nil)
 	MatrixMatrixMultiply[T](context.Background(), s, m, nil, matrix)
 	return matrix
 }
diff --git a/sparseVector.go b/sparseVector.go
index cca1b6e..ae4c2df 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -236,7 +236,7 @@ func (s *SparseVector[T]) Scalar(alpha T) Matrix[T] {
 
 // Multiply multiplies a vector by another vector
 func (s *SparseVector[T]) Multiply(m Matrix[T]) Matrix[T] {
-	matrix := newMatrixNumber[T](m.Rows(), s.Columns(), nil)
+	matrix := newMatrixNumber[T](s.Rows(), m.Columns(), nil)
 	MatrixMatrixMultiply[T](context.Background(), s, m, nil, matrix)
 	return matrix
 }
-- 
2.43.0


From 5e417db5a66ad1105d74a884cd5018dbc3c3c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 16/27] fix: reading a sparse format does not write to it

At and Element went through Update, which stores the value again, so
concurrent readers raced, those of a MutexMatrix under its read lock too.
---
 cscMatrix.go    | 24 ++++++++++++++----------
 csrMatrix.go    | 24 ++++++++++++++----------
 sparseVector.go | 13 ++++++++-----
 3 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index bba5210..919b4a7 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -105,10 +105,19 @@ func (s *CSCMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSCMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.rowIndex(r, c)
+
+	if pointerStart < pointerEnd && s.rows[pointerStart] == r {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
@@ -414,10 +423,5 @@ func (s *cSCMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSCMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
-		return v
-	})
-
-	return
+	return s.At(r, c) > Default[T]()
 }
diff --git a/csrMatrix.go b/csrMatrix.go
index d359ea6..f80247d 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -97,10 +97,19 @@ func (s *CSRMatrix[T]) UpdateReturnPointer(r, c int, f func(T) T) (pointer int,
 
 // At returns the value of a matrix element at r-th, c-th
 func (s *CSRMatrix[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.r {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.c {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
+	pointerStart, pointerEnd := s.columnIndex(r, c)
+
+	if pointerStart < pointerEnd && s.cols[pointerStart] == c {
+		value = s.values[pointerStart]
+	}
 
 	return
 }
@@ -404,10 +413,5 @@ func (s *cSRMatrixMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *CSRMatrix[T]) Element(r, c int) (b bool) {
-	s.Update(r, c, func(v T) T {
-		b = v > Default[T]()
-		return v
-	})
-
-	return
+	return s.At(r, c) > Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index ae4c2df..c8a2f49 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -114,12 +114,15 @@ func (s *SparseVector[T]) Update(r, c int, f func(T) T) {
 
 // At returns the value of a vector element at r-th, c-th
 func (s *SparseVector[T]) At(r, c int) (value T) {
-	s.Update(r, c, func(v T) T {
-		value = v
-		return v
-	})
+	if r < 0 || r >= s.Rows() {
+		log.Panicf("Row '%+v' is invalid", r)
+	}
+
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
 
-	return
+	return s.AtVec(r)
 }
 
 // Set sets the value at r-th, c-th of the vector
-- 
2.43.0


From 931f1f0d84bfdbbeddd40ad8d3c926f1af6c9b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 17/27] fix: MutexMatrix.Clear takes the write lock

---
 mutexMatrix.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mutexMatrix.go b/mutexMatrix.go
index 5c01fd8..d3d486f 100644
--- a/mutexMatrix.go
+++ b/mutexMatrix.go
@@ -166,8 +166,8 @@ func (s *MutexMatrix[T]) Values() int {
 
 // Clear removes all elements from a matrix
 func (s *MutexMatrix[T]) Clear() {
-	s.RLock()
-	defer s.RUnlock()
+	s.Lock()
+	defer s.Unlock()
 
 	s.matrix.Clear()
 }
-- 
2.43.0


From 4e501cba72857f5c6ddb7ea05d51a095149c256e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 18/27] fix: MutexMatrix.Values takes the read lock

---
 mutexMatrix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mutexMatrix.go b/mutexMatrix.go
index d3d486f..f1804e6 100644
--- a/mutexMatrix.go
+++ b/mutexMatrix.go
@@ -161,6 +161,9 @@ func (s *MutexMatrix[T]) Size() int {
 
 // Values the number of elements in the matrix
 func (s *MutexMatrix[T]) Values() int {
+	s.RLock()
+	defer s.RUnlock()
+
 	return s.matrix.Values()
 }
 
-- 
2.43.0


From 2c8dc5c079e485d05a01409f98cfe7b27b56d5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:09 +0000
Subject: [PATCH 19/27] fix: Strassen multiplies odd-sized and rectangular
 matrices the standard way

They can not be divided in four equal sub-matrices: the last row and column
were dropped, other cells invented, and a crossover below one recursed for
ever.
---
 math/strassen/strassen.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/math/strassen/strassen.go b/math/strassen/strassen.go
index a64a8c7..8178676 100644
--- a/math/strassen/strassen.go
+++ b/math/strassen/strassen.go
@@ -26,7 +26,8 @@ func MultiplyCrossoverPoint[T constraints.Number](ctx context.Context, a, b grap
 	}
 
 	n := b.Rows()
-	if n <= crossover {
+	// only square matrices of an even size can be divided in 4 sub-matrices
+	if n <= crossover || n < 2 || n%2 != 0 || a.Rows() != n || b.Columns() != n {
 		matrix := graphblas.NewDenseMatrixN[T](a.Rows(), b.Columns())
 		graphblas.MatrixMatrixMultiply[T](ctx, a, b, nil, matrix)
 		return matrix
-- 
2.43.0


From e15d2e2c66c1a996a2af35a30c378036e84a87f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 20/27] fix: element-wise operations take matrices of the same
 shape

The check was that of a product, so rectangular matrices of one shape were
refused and some of different shapes accepted.
---
 operators.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/operators.go b/operators.go
index 4363af9..b97d956 100644
--- a/operators.go
+++ b/operators.go
@@ -148,8 +148,12 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 //
 // eWiseMult
 func ElementWiseMatrixMultiply[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-	if m.Rows() != s.Columns() {
-		log.Panicf("Can not multiply matrices found length miss match %+v, %+v", m.Rows(), s.Columns())
+	if m.Rows() != s.Rows() {
+		log.Panicf("Can not multiply matrices found rows mismatch %+v, %+v", m.Rows(), s.Rows())
+	}
+
+	if m.Columns() != s.Columns() {
+		log.Panicf("Can not multiply matrices found columns mismatch %+v, %+v", m.Columns(), s.Columns())
 	}
 
 	elementWiseMultiply(ctx, s, m, mask, matrix)
@@ -274,8 +278,12 @@ func elementWiseAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], m
 //
 // eWiseMult
 func ElementWiseMatrixAdd[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T]) {
-	if m.Rows() != s.Columns() {
-		log.Panicf("Can not multiply matrices found length mismatch %+v, %+v", m.Rows(), s.Columns())
+	if m.Rows() != s.Rows() {
+		log.Panicf("Can not multiply matrices found rows mismatch %+v, %+v", m.Rows(), s.Rows())
+	}
+
+	if m.Columns() != s.Columns() {
+		log.Panicf("Can not multiply matrices found columns mismatch %+v, %+v", m.Columns(), s.Columns())
 	}
 
 	elementWiseAdd(ctx, s, m, mask, matrix)
-- 
2.43.0


From d177e6e1c4d072cdaba191bdca7e77356b9e25f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 21/27] fix: element-wise multiply onto an operand clears its
 unmatched elements

The other operand was enumerated, and a sparse one does not enumerate the
elements it lacks.
---
 operators.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/operators.go b/operators.go
index b97d956..4405370 100644
--- a/operators.go
+++ b/operators.go
@@ -108,23 +108,20 @@ func elementWiseMultiply[T constraints.Number](ctx context.Context, s, m Matrix[
 	// when the matrix is the same object of s or m we use the setSource func to self update
 	setSource := func(r, c int, value T) {
 		if !mask.Element(r, c) {
-			source.Update(r, c, func(v T) T {
-				if value != v {
-					return Default[T]()
-				}
-				return v
-			})
+			if value != source.At(r, c) {
+				matrix.Set(r, c, Default[T]())
+			}
 		}
 	}
 
 	if m == matrix {
 		target = setSource
-		iterator = s.Enumerate()
-		source = m
+		iterator = m.Copy().Enumerate()
+		source = s
 	} else if s == matrix {
 		target = setSource
-		iterator = m.Enumerate()
-		source = s
+		iterator = s.Copy().Enumerate()
+		source = m
 	} else if IsSparseMatrix[T](s) {
 		iterator = s.Enumerate()
 		source = m
-- 
2.43.0


From d2e35396f2d3892215a9232d6a27ec2b4fed0aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:27 +0000
Subject: [PATCH 22/27] fix: vectors refuse reads outside their only column

---
 denseVector.go  | 6 +++++-
 sparseVector.go | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/denseVector.go b/denseVector.go
index 0be80e9..6aaedde 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -129,6 +129,10 @@ func (s *DenseVector[T]) Update(r, c int, f func(T) T) {
 
 // At returns the value of a vector element at r-th, c-th
 func (s *DenseVector[T]) At(r, c int) (value T) {
+	if c < 0 || c >= s.Columns() {
+		log.Panicf("Column '%+v' is invalid", c)
+	}
+
 	return s.AtVec(r)
 }
 
@@ -350,5 +354,5 @@ func (s *denseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *DenseVectorNumber[T]) Element(r, c int) bool {
-	return s.AtVec(r) > Default[T]()
+	return s.At(r, c) > Default[T]()
 }
diff --git a/sparseVector.go b/sparseVector.go
index c8a2f49..459bec3 100644
--- a/sparseVector.go
+++ b/sparseVector.go
@@ -372,5 +372,5 @@ func (s *sparseVectorMap[T]) Map(f func(int, int, T) T) {
 
 // Element of the mask for each tuple that exists in the matrix for which the value of the tuple cast to Boolean is true
 func (s *SparseVector[T]) Element(r, c int) bool {
-	return s.AtVec(r) > Default[T]()
+	return s.At(r, c) > Default[T]()
 }
-- 
2.43.0


From 4916175d97bf13b11e80e122fc30fe64dab0b085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 23/27] fix: a cancelled multiplication over an empty inner
 dimension stops writing

---
 operators.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/operators.go b/operators.go
index 4405370..838bc85 100644
--- a/operators.go
+++ b/operators.go
@@ -51,8 +51,13 @@ func multiply[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Ma
 				}
 			}
 
-			if !mask.Element(r, c) {
-				matrix.Set(r, c, sum)
+			select {
+			case <-ctx.Done():
+				return
+			default:
+				if !mask.Element(r, c) {
+					matrix.Set(r, c, sum)
+				}
 			}
 		}
 
-- 
2.43.0


From 7401ea56dfd9d733b7abbc09a2af579f7d8ed101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:44 +0000
Subject: [PATCH 24/27] fix: enumerating a compressed matrix steps over its
 elements, not over the gaps between them

---
 cscMatrix.go | 17 ++++-------------
 csrMatrix.go | 17 ++++-------------
 2 files changed, 8 insertions(+), 26 deletions(-)

diff --git a/cscMatrix.go b/cscMatrix.go
index 919b4a7..617c476 100644
--- a/cscMatrix.go
+++ b/cscMatrix.go
@@ -350,7 +350,6 @@ type cSCMatrixIterator[T constraints.Number] struct {
 	last         int
 	c            int
 	r            int
-	rIndex       int
 	index        int
 	pointerStart int
 	pointerEnd   int
@@ -370,20 +369,12 @@ func (s *cSCMatrixIterator[T]) next() {
 		s.c++
 		s.pointerStart = s.matrix.colStart[s.c]
 		s.pointerEnd = s.matrix.colStart[s.c+1]
-		s.rIndex = s.matrix.rows[s.pointerStart]
 	}
 
-	for s.pointerStart < s.pointerEnd {
-		if s.matrix.rows[s.pointerStart] == s.rIndex {
-			s.index = s.pointerStart
-			s.pointerStart++
-			s.r = s.rIndex
-			s.rIndex++
-			s.last++
-			return
-		}
-		s.rIndex++
-	}
+	s.index = s.pointerStart
+	s.r = s.matrix.rows[s.index]
+	s.pointerStart++
+	s.last++
 }
 
 // Next moves the iterator and returns the row, column and value
diff --git a/csrMatrix.go b/csrMatrix.go
index f80247d..63649f6 100644
--- a/csrMatrix.go
+++ b/csrMatrix.go
@@ -331,7 +331,6 @@ type cSRMatrixIterator[T constraints.Number] struct {
 	last         int
 	c            int
 	r            int
-	cIndex       int
 	index        int
 	pointerStart int
 	pointerEnd   int
@@ -352,20 +351,12 @@ func (s *cSRMatrixIterator[T]) next() {
 		s.r++
 		s.pointerStart = s.matrix.rowStart[s.r]
 		s.pointerEnd = s.matrix.rowStart[s.r+1]
-		s.cIndex = s.matrix.cols[s.pointerStart]
 	}
 
-	for s.pointerStart < s.pointerEnd {
-		if s.matrix.cols[s.pointerStart] == s.cIndex {
-			s.index = s.pointerStart
-			s.pointerStart++
-			s.c = s.cIndex
-			s.cIndex++
-			s.last++
-			return
-		}
-		s.cIndex++
-	}
+	s.index = s.pointerStart
+	s.c = s.matrix.cols[s.index]
+	s.pointerStart++
+	s.last++
 }
 
 // HasNext checks the iterator has any more values
-- 
2.43.0


From 319af76e437b50602cc9aaa6a30d8211a3a7efeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 25/27] fix: a cancelled sort stops

---
 sort/bubble.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sort/bubble.go b/sort/bubble.go
index 845e9c8..f8a2b4f 100644
--- a/sort/bubble.go
+++ b/sort/bubble.go
@@ -11,6 +11,12 @@ func BubbleRow(ctx context.Context, a graphblas.MatrixRune) graphblas.MatrixRune
 	result := a.CopyLogical()
 	for j := 0; j < size-1; j++ {
 		for i := j + 1; i < size; i++ {
+			select {
+			case <-ctx.Done():
+				return result
+			default:
+			}
+
 			vj := result.RowsAt(j)
 			vi := result.RowsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
@@ -37,6 +43,12 @@ func BubbleColumns(ctx context.Context, a graphblas.MatrixRune) graphblas.Matrix
 	result := a.CopyLogical()
 	for j := 0; j < size-1; j++ {
 		for i := j + 1; i < size; i++ {
+			select {
+			case <-ctx.Done():
+				return result
+			default:
+			}
+
 			vj := result.ColumnsAt(j)
 			vi := result.ColumnsAt(i)
 			if graphblas.Compare(ctx, vj, vi) > 0 {
-- 
2.43.0


From 054613cb4b603221c0fac83e3003eac61f389724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 26/27] fix: a cancelled search does not hand an incomplete
 level to its callback

---
 breadthfirst/breadthFirst.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/breadthfirst/breadthFirst.go b/breadthfirst/breadthFirst.go
index b4d717d..964205f 100644
--- a/breadthfirst/breadthFirst.go
+++ b/breadthfirst/breadthFirst.go
@@ -33,6 +33,13 @@ func Search[T constraints.Number](ctx context.Context, a graphblas.Matrix[T], s
 
 		graphblas.MatrixVectorMultiply[T](ctx, a, frontier, visited, result)
 
+		// a cancelled product is not a level of the search
+		select {
+		case <-ctx.Done():
+			return result
+		default:
+		}
+
 		if c(result) {
 			break
 		}
-- 
2.43.0


From 2e91d5c771b1ca10ac79b71c1ec1d36b1803619f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:04 +0000
Subject: [PATCH 27/27] fix: a vector that grows leaves alone what lies behind
 the array it was made from

---
 denseVector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/denseVector.go b/denseVector.go
index 6aaedde..e9f78a1 100644
--- a/denseVector.go
+++ b/denseVector.go
@@ -89,7 +89,7 @@ func (s *DenseVector[T]) ReSize(size int) int {
 	if size > s.l {
 		length := size - s.l
 		arr := make([]T, length)
-		s.values = append(s.values, arr...)
+		s.values = append(s.values[:s.l:s.l], arr...)
 	} else if size < s.l {
 		s.values = append([]T(nil), s.values[:size]...)
 	}
-- 
2.43.0

