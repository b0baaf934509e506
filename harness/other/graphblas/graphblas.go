// Package graphblas is a user's package with the library's name and formats
// named like the library's own.
package graphblas

import (
	g "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/constraints"
)

// CSRMatrix is a user's dense format named like a sparse one of the library's.
type CSRMatrix[T constraints.Number] struct{ g.Matrix[T] }

// SparseVector likewise.
type SparseVector[T constraints.Number] struct{ g.Matrix[T] }

// DenseMatrixNumber is a user's sparse format named like a dense one of the
// library's.
type DenseMatrixNumber[T constraints.Number] struct{ g.Matrix[T] }
