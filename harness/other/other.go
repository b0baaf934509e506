// Package other declares formats named like the library's own.
package other

import (
	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
)

// CSRMatrix is a user's dense format that happens to be named like a sparse
// one of the library's.
type CSRMatrix[T constraints.Number] struct{ g.Matrix[T] }

// SparseVector likewise.
type SparseVector[T constraints.Number] struct{ g.Matrix[T] }

// CSRMatrixLike has a library format's name as a prefix.
type CSRMatrixLike[T constraints.Number] struct{ g.Matrix[T] }

// DenseMatrixNumber is a user's sparse format named like a dense one of the
// library's.
type DenseMatrixNumber[T constraints.Number] struct{ g.Matrix[T] }

// DenseVector likewise.
type DenseVector[T constraints.Number] struct{ g.Matrix[T] }

// U3 is named like a format of the harness.
type U3[T constraints.Number] struct{ g.Matrix[T] }
