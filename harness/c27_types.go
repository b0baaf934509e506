//go:build all || c27

// Written by tools/gen_c27.py.
package main

import (
	"reflect"

	g "github.com/rossmerr/graphblas"
	"verifharness/other"
	namesake "verifharness/other/graphblas"
)

type U0[T Num] struct{ UserMatrix[T] }
type U1[T Num] struct{ g.Matrix[T] }
type U2[T Num] struct{ g.Matrix[T] }
type U3[T Num] struct{ UserMatrix[T] }
type U4[T Num] struct{ g.Matrix[T] }
type U5[T Num] struct{ g.Matrix[T] }
type U6[T Num] struct{ UserMatrix[T] }
type U7[T Num] struct{ g.Matrix[T] }
type U8[T Num] struct{ g.Matrix[T] }
type U9[T Num] struct{ UserMatrix[T] }
type U10[T Num] struct{ g.Matrix[T] }
type U11[T Num] struct{ g.Matrix[T] }
type U12[T Num] struct{ UserMatrix[T] }
type U13[T Num] struct{ g.Matrix[T] }
type U14[T Num] struct{ g.Matrix[T] }
type U15[T Num] struct{ UserMatrix[T] }
type U16[T Num] struct{ g.Matrix[T] }
type U17[T Num] struct{ g.Matrix[T] }
type U18[T Num] struct{ UserMatrix[T] }
type U19[T Num] struct{ g.Matrix[T] }
type UserSparseMatrix[T Num] struct{ g.Matrix[T] }
type U1x[T Num] struct{ UserMatrix[T] }
type U22[T Num] struct{ g.Matrix[T] }
type U23[T Num] struct{ g.Matrix[T] }

type userFormat struct {
	name   string
	typ    func(e int) reflect.Type
	sparse func(e int) bool
}

var userFormats = []userFormat{
	{"U0", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U0[int]{})
		case 1:
			return reflect.TypeOf(U0[int8]{})
		case 2:
			return reflect.TypeOf(U0[int16]{})
		case 3:
			return reflect.TypeOf(U0[int32]{})
		case 4:
			return reflect.TypeOf(U0[int64]{})
		case 5:
			return reflect.TypeOf(U0[uint]{})
		case 6:
			return reflect.TypeOf(U0[uint8]{})
		case 7:
			return reflect.TypeOf(U0[uint16]{})
		case 8:
			return reflect.TypeOf(U0[uint32]{})
		case 9:
			return reflect.TypeOf(U0[uint64]{})
		case 10:
			return reflect.TypeOf(U0[uintptr]{})
		case 11:
			return reflect.TypeOf(U0[float32]{})
		case 12:
			return reflect.TypeOf(U0[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U0[int]{UserMatrix[int]{Matrix: g.NewDenseMatrixN[int](1, 1)}})
		case 1:
			return g.IsSparseMatrix[int8](&U0[int8]{UserMatrix[int8]{Matrix: g.NewDenseMatrixN[int8](1, 1)}})
		case 2:
			return g.IsSparseMatrix[int16](&U0[int16]{UserMatrix[int16]{Matrix: g.NewDenseMatrixN[int16](1, 1)}})
		case 3:
			return g.IsSparseMatrix[int32](&U0[int32]{UserMatrix[int32]{Matrix: g.NewDenseMatrixN[int32](1, 1)}})
		case 4:
			return g.IsSparseMatrix[int64](&U0[int64]{UserMatrix[int64]{Matrix: g.NewDenseMatrixN[int64](1, 1)}})
		case 5:
			return g.IsSparseMatrix[uint](&U0[uint]{UserMatrix[uint]{Matrix: g.NewDenseMatrixN[uint](1, 1)}})
		case 6:
			return g.IsSparseMatrix[uint8](&U0[uint8]{UserMatrix[uint8]{Matrix: g.NewDenseMatrixN[uint8](1, 1)}})
		case 7:
			return g.IsSparseMatrix[uint16](&U0[uint16]{UserMatrix[uint16]{Matrix: g.NewDenseMatrixN[uint16](1, 1)}})
		case 8:
			return g.IsSparseMatrix[uint32](&U0[uint32]{UserMatrix[uint32]{Matrix: g.NewDenseMatrixN[uint32](1, 1)}})
		case 9:
			return g.IsSparseMatrix[uint64](&U0[uint64]{UserMatrix[uint64]{Matrix: g.NewDenseMatrixN[uint64](1, 1)}})
		case 10:
			return g.IsSparseMatrix[uintptr](&U0[uintptr]{UserMatrix[uintptr]{Matrix: g.NewDenseMatrixN[uintptr](1, 1)}})
		case 11:
			return g.IsSparseMatrix[float32](&U0[float32]{UserMatrix[float32]{Matrix: g.NewDenseMatrixN[float32](1, 1)}})
		case 12:
			return g.IsSparseMatrix[float64](&U0[float64]{UserMatrix[float64]{Matrix: g.NewDenseMatrixN[float64](1, 1)}})
		}
		panic("type")
	}},
	{"U1", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U1[int]{})
		case 1:
			return reflect.TypeOf(U1[int8]{})
		case 2:
			return reflect.TypeOf(U1[int16]{})
		case 3:
			return reflect.TypeOf(U1[int32]{})
		case 4:
			return reflect.TypeOf(U1[int64]{})
		case 5:
			return reflect.TypeOf(U1[uint]{})
		case 6:
			return reflect.TypeOf(U1[uint8]{})
		case 7:
			return reflect.TypeOf(U1[uint16]{})
		case 8:
			return reflect.TypeOf(U1[uint32]{})
		case 9:
			return reflect.TypeOf(U1[uint64]{})
		case 10:
			return reflect.TypeOf(U1[uintptr]{})
		case 11:
			return reflect.TypeOf(U1[float32]{})
		case 12:
			return reflect.TypeOf(U1[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U1[int]{g.NewCSRMatrix[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](&U1[int8]{g.NewCSRMatrix[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](&U1[int16]{g.NewCSRMatrix[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](&U1[int32]{g.NewCSRMatrix[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](&U1[int64]{g.NewCSRMatrix[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](&U1[uint]{g.NewCSRMatrix[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](&U1[uint8]{g.NewCSRMatrix[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](&U1[uint16]{g.NewCSRMatrix[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](&U1[uint32]{g.NewCSRMatrix[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](&U1[uint64]{g.NewCSRMatrix[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](&U1[uintptr]{g.NewCSRMatrix[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](&U1[float32]{g.NewCSRMatrix[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](&U1[float64]{g.NewCSRMatrix[float64](1, 1)})
		}
		panic("type")
	}},
	{"U2", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U2[int]{})
		case 1:
			return reflect.TypeOf(U2[int8]{})
		case 2:
			return reflect.TypeOf(U2[int16]{})
		case 3:
			return reflect.TypeOf(U2[int32]{})
		case 4:
			return reflect.TypeOf(U2[int64]{})
		case 5:
			return reflect.TypeOf(U2[uint]{})
		case 6:
			return reflect.TypeOf(U2[uint8]{})
		case 7:
			return reflect.TypeOf(U2[uint16]{})
		case 8:
			return reflect.TypeOf(U2[uint32]{})
		case 9:
			return reflect.TypeOf(U2[uint64]{})
		case 10:
			return reflect.TypeOf(U2[uintptr]{})
		case 11:
			return reflect.TypeOf(U2[float32]{})
		case 12:
			return reflect.TypeOf(U2[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](U2[int]{g.NewDenseMatrixN[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](U2[int8]{g.NewDenseMatrixN[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](U2[int16]{g.NewDenseMatrixN[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](U2[int32]{g.NewDenseMatrixN[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](U2[int64]{g.NewDenseMatrixN[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](U2[uint]{g.NewDenseMatrixN[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](U2[uint8]{g.NewDenseMatrixN[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](U2[uint16]{g.NewDenseMatrixN[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](U2[uint32]{g.NewDenseMatrixN[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](U2[uint64]{g.NewDenseMatrixN[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](U2[uintptr]{g.NewDenseMatrixN[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](U2[float32]{g.NewDenseMatrixN[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](U2[float64]{g.NewDenseMatrixN[float64](1, 1)})
		}
		panic("type")
	}},
	{"U3", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U3[int]{})
		case 1:
			return reflect.TypeOf(U3[int8]{})
		case 2:
			return reflect.TypeOf(U3[int16]{})
		case 3:
			return reflect.TypeOf(U3[int32]{})
		case 4:
			return reflect.TypeOf(U3[int64]{})
		case 5:
			return reflect.TypeOf(U3[uint]{})
		case 6:
			return reflect.TypeOf(U3[uint8]{})
		case 7:
			return reflect.TypeOf(U3[uint16]{})
		case 8:
			return reflect.TypeOf(U3[uint32]{})
		case 9:
			return reflect.TypeOf(U3[uint64]{})
		case 10:
			return reflect.TypeOf(U3[uintptr]{})
		case 11:
			return reflect.TypeOf(U3[float32]{})
		case 12:
			return reflect.TypeOf(U3[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U3[int]{UserMatrix[int]{Matrix: g.NewDenseMatrixN[int](1, 1)}})
		case 1:
			return g.IsSparseMatrix[int8](&U3[int8]{UserMatrix[int8]{Matrix: g.NewDenseMatrixN[int8](1, 1)}})
		case 2:
			return g.IsSparseMatrix[int16](&U3[int16]{UserMatrix[int16]{Matrix: g.NewDenseMatrixN[int16](1, 1)}})
		case 3:
			return g.IsSparseMatrix[int32](&U3[int32]{UserMatrix[int32]{Matrix: g.NewDenseMatrixN[int32](1, 1)}})
		case 4:
			return g.IsSparseMatrix[int64](&U3[int64]{UserMatrix[int64]{Matrix: g.NewDenseMatrixN[int64](1, 1)}})
		case 5:
			return g.IsSparseMatrix[uint](&U3[uint]{UserMatrix[uint]{Matrix: g.NewDenseMatrixN[uint](1, 1)}})
		case 6:
			return g.IsSparseMatrix[uint8](&U3[uint8]{UserMatrix[uint8]{Matrix: g.NewDenseMatrixN[uint8](1, 1)}})
		case 7:
			return g.IsSparseMatrix[uint16](&U3[uint16]{UserMatrix[uint16]{Matrix: g.NewDenseMatrixN[uint16](1, 1)}})
		case 8:
			return g.IsSparseMatrix[uint32](&U3[uint32]{UserMatrix[uint32]{Matrix: g.NewDenseMatrixN[uint32](1, 1)}})
		case 9:
			return g.IsSparseMatrix[uint64](&U3[uint64]{UserMatrix[uint64]{Matrix: g.NewDenseMatrixN[uint64](1, 1)}})
		case 10:
			return g.IsSparseMatrix[uintptr](&U3[uintptr]{UserMatrix[uintptr]{Matrix: g.NewDenseMatrixN[uintptr](1, 1)}})
		case 11:
			return g.IsSparseMatrix[float32](&U3[float32]{UserMatrix[float32]{Matrix: g.NewDenseMatrixN[float32](1, 1)}})
		case 12:
			return g.IsSparseMatrix[float64](&U3[float64]{UserMatrix[float64]{Matrix: g.NewDenseMatrixN[float64](1, 1)}})
		}
		panic("type")
	}},
	{"U4", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U4[int]{})
		case 1:
			return reflect.TypeOf(U4[int8]{})
		case 2:
			return reflect.TypeOf(U4[int16]{})
		case 3:
			return reflect.TypeOf(U4[int32]{})
		case 4:
			return reflect.TypeOf(U4[int64]{})
		case 5:
			return reflect.TypeOf(U4[uint]{})
		case 6:
			return reflect.TypeOf(U4[uint8]{})
		case 7:
			return reflect.TypeOf(U4[uint16]{})
		case 8:
			return reflect.TypeOf(U4[uint32]{})
		case 9:
			return reflect.TypeOf(U4[uint64]{})
		case 10:
			return reflect.TypeOf(U4[uintptr]{})
		case 11:
			return reflect.TypeOf(U4[float32]{})
		case 12:
			return reflect.TypeOf(U4[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U4[int]{g.NewCSRMatrix[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](&U4[int8]{g.NewCSRMatrix[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](&U4[int16]{g.NewCSRMatrix[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](&U4[int32]{g.NewCSRMatrix[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](&U4[int64]{g.NewCSRMatrix[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](&U4[uint]{g.NewCSRMatrix[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](&U4[uint8]{g.NewCSRMatrix[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](&U4[uint16]{g.NewCSRMatrix[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](&U4[uint32]{g.NewCSRMatrix[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](&U4[uint64]{g.NewCSRMatrix[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](&U4[uintptr]{g.NewCSRMatrix[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](&U4[float32]{g.NewCSRMatrix[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](&U4[float64]{g.NewCSRMatrix[float64](1, 1)})
		}
		panic("type")
	}},
	{"U5", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U5[int]{})
		case 1:
			return reflect.TypeOf(U5[int8]{})
		case 2:
			return reflect.TypeOf(U5[int16]{})
		case 3:
			return reflect.TypeOf(U5[int32]{})
		case 4:
			return reflect.TypeOf(U5[int64]{})
		case 5:
			return reflect.TypeOf(U5[uint]{})
		case 6:
			return reflect.TypeOf(U5[uint8]{})
		case 7:
			return reflect.TypeOf(U5[uint16]{})
		case 8:
			return reflect.TypeOf(U5[uint32]{})
		case 9:
			return reflect.TypeOf(U5[uint64]{})
		case 10:
			return reflect.TypeOf(U5[uintptr]{})
		case 11:
			return reflect.TypeOf(U5[float32]{})
		case 12:
			return reflect.TypeOf(U5[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](U5[int]{g.NewDenseMatrixN[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](U5[int8]{g.NewDenseMatrixN[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](U5[int16]{g.NewDenseMatrixN[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](U5[int32]{g.NewDenseMatrixN[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](U5[int64]{g.NewDenseMatrixN[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](U5[uint]{g.NewDenseMatrixN[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](U5[uint8]{g.NewDenseMatrixN[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](U5[uint16]{g.NewDenseMatrixN[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](U5[uint32]{g.NewDenseMatrixN[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](U5[uint64]{g.NewDenseMatrixN[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](U5[uintptr]{g.NewDenseMatrixN[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](U5[float32]{g.NewDenseMatrixN[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](U5[float64]{g.NewDenseMatrixN[float64](1, 1)})
		}
		panic("type")
	}},
	{"U6", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U6[int]{})
		case 1:
			return reflect.TypeOf(U6[int8]{})
		case 2:
			return reflect.TypeOf(U6[int16]{})
		case 3:
			return reflect.TypeOf(U6[int32]{})
		case 4:
			return reflect.TypeOf(U6[int64]{})
		case 5:
			return reflect.TypeOf(U6[uint]{})
		case 6:
			return reflect.TypeOf(U6[uint8]{})
		case 7:
			return reflect.TypeOf(U6[uint16]{})
		case 8:
			return reflect.TypeOf(U6[uint32]{})
		case 9:
			return reflect.TypeOf(U6[uint64]{})
		case 10:
			return reflect.TypeOf(U6[uintptr]{})
		case 11:
			return reflect.TypeOf(U6[float32]{})
		case 12:
			return reflect.TypeOf(U6[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U6[int]{UserMatrix[int]{Matrix: g.NewDenseMatrixN[int](1, 1)}})
		case 1:
			return g.IsSparseMatrix[int8](&U6[int8]{UserMatrix[int8]{Matrix: g.NewDenseMatrixN[int8](1, 1)}})
		case 2:
			return g.IsSparseMatrix[int16](&U6[int16]{UserMatrix[int16]{Matrix: g.NewDenseMatrixN[int16](1, 1)}})
		case 3:
			return g.IsSparseMatrix[int32](&U6[int32]{UserMatrix[int32]{Matrix: g.NewDenseMatrixN[int32](1, 1)}})
		case 4:
			return g.IsSparseMatrix[int64](&U6[int64]{UserMatrix[int64]{Matrix: g.NewDenseMatrixN[int64](1, 1)}})
		case 5:
			return g.IsSparseMatrix[uint](&U6[uint]{UserMatrix[uint]{Matrix: g.NewDenseMatrixN[uint](1, 1)}})
		case 6:
			return g.IsSparseMatrix[uint8](&U6[uint8]{UserMatrix[uint8]{Matrix: g.NewDenseMatrixN[uint8](1, 1)}})
		case 7:
			return g.IsSparseMatrix[uint16](&U6[uint16]{UserMatrix[uint16]{Matrix: g.NewDenseMatrixN[uint16](1, 1)}})
		case 8:
			return g.IsSparseMatrix[uint32](&U6[uint32]{UserMatrix[uint32]{Matrix: g.NewDenseMatrixN[uint32](1, 1)}})
		case 9:
			return g.IsSparseMatrix[uint64](&U6[uint64]{UserMatrix[uint64]{Matrix: g.NewDenseMatrixN[uint64](1, 1)}})
		case 10:
			return g.IsSparseMatrix[uintptr](&U6[uintptr]{UserMatrix[uintptr]{Matrix: g.NewDenseMatrixN[uintptr](1, 1)}})
		case 11:
			return g.IsSparseMatrix[float32](&U6[float32]{UserMatrix[float32]{Matrix: g.NewDenseMatrixN[float32](1, 1)}})
		case 12:
			return g.IsSparseMatrix[float64](&U6[float64]{UserMatrix[float64]{Matrix: g.NewDenseMatrixN[float64](1, 1)}})
		}
		panic("type")
	}},
	{"U7", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U7[int]{})
		case 1:
			return reflect.TypeOf(U7[int8]{})
		case 2:
			return reflect.TypeOf(U7[int16]{})
		case 3:
			return reflect.TypeOf(U7[int32]{})
		case 4:
			return reflect.TypeOf(U7[int64]{})
		case 5:
			return reflect.TypeOf(U7[uint]{})
		case 6:
			return reflect.TypeOf(U7[uint8]{})
		case 7:
			return reflect.TypeOf(U7[uint16]{})
		case 8:
			return reflect.TypeOf(U7[uint32]{})
		case 9:
			return reflect.TypeOf(U7[uint64]{})
		case 10:
			return reflect.TypeOf(U7[uintptr]{})
		case 11:
			return reflect.TypeOf(U7[float32]{})
		case 12:
			return reflect.TypeOf(U7[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U7[int]{g.NewCSRMatrix[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](&U7[int8]{g.NewCSRMatrix[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](&U7[int16]{g.NewCSRMatrix[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](&U7[int32]{g.NewCSRMatrix[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](&U7[int64]{g.NewCSRMatrix[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](&U7[uint]{g.NewCSRMatrix[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](&U7[uint8]{g.NewCSRMatrix[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](&U7[uint16]{g.NewCSRMatrix[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](&U7[uint32]{g.NewCSRMatrix[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](&U7[uint64]{g.NewCSRMatrix[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](&U7[uintptr]{g.NewCSRMatrix[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](&U7[float32]{g.NewCSRMatrix[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](&U7[float64]{g.NewCSRMatrix[float64](1, 1)})
		}
		panic("type")
	}},
	{"U8", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U8[int]{})
		case 1:
			return reflect.TypeOf(U8[int8]{})
		case 2:
			return reflect.TypeOf(U8[int16]{})
		case 3:
			return reflect.TypeOf(U8[int32]{})
		case 4:
			return reflect.TypeOf(U8[int64]{})
		case 5:
			return reflect.TypeOf(U8[uint]{})
		case 6:
			return reflect.TypeOf(U8[uint8]{})
		case 7:
			return reflect.TypeOf(U8[uint16]{})
		case 8:
			return reflect.TypeOf(U8[uint32]{})
		case 9:
			return reflect.TypeOf(U8[uint64]{})
		case 10:
			return reflect.TypeOf(U8[uintptr]{})
		case 11:
			return reflect.TypeOf(U8[float32]{})
		case 12:
			return reflect.TypeOf(U8[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](U8[int]{g.NewDenseMatrixN[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](U8[int8]{g.NewDenseMatrixN[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](U8[int16]{g.NewDenseMatrixN[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](U8[int32]{g.NewDenseMatrixN[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](U8[int64]{g.NewDenseMatrixN[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](U8[uint]{g.NewDenseMatrixN[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](U8[uint8]{g.NewDenseMatrixN[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](U8[uint16]{g.NewDenseMatrixN[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](U8[uint32]{g.NewDenseMatrixN[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](U8[uint64]{g.NewDenseMatrixN[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](U8[uintptr]{g.NewDenseMatrixN[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](U8[float32]{g.NewDenseMatrixN[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](U8[float64]{g.NewDenseMatrixN[float64](1, 1)})
		}
		panic("type")
	}},
	{"U9", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U9[int]{})
		case 1:
			return reflect.TypeOf(U9[int8]{})
		case 2:
			return reflect.TypeOf(U9[int16]{})
		case 3:
			return reflect.TypeOf(U9[int32]{})
		case 4:
			return reflect.TypeOf(U9[int64]{})
		case 5:
			return reflect.TypeOf(U9[uint]{})
		case 6:
			return reflect.TypeOf(U9[uint8]{})
		case 7:
			return reflect.TypeOf(U9[uint16]{})
		case 8:
			return reflect.TypeOf(U9[uint32]{})
		case 9:
			return reflect.TypeOf(U9[uint64]{})
		case 10:
			return reflect.TypeOf(U9[uintptr]{})
		case 11:
			return reflect.TypeOf(U9[float32]{})
		case 12:
			return reflect.TypeOf(U9[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U9[int]{UserMatrix[int]{Matrix: g.NewDenseMatrixN[int](1, 1)}})
		case 1:
			return g.IsSparseMatrix[int8](&U9[int8]{UserMatrix[int8]{Matrix: g.NewDenseMatrixN[int8](1, 1)}})
		case 2:
			return g.IsSparseMatrix[int16](&U9[int16]{UserMatrix[int16]{Matrix: g.NewDenseMatrixN[int16](1, 1)}})
		case 3:
			return g.IsSparseMatrix[int32](&U9[int32]{UserMatrix[int32]{Matrix: g.NewDenseMatrixN[int32](1, 1)}})
		case 4:
			return g.IsSparseMatrix[int64](&U9[int64]{UserMatrix[int64]{Matrix: g.NewDenseMatrixN[int64](1, 1)}})
		case 5:
			return g.IsSparseMatrix[uint](&U9[uint]{UserMatrix[uint]{Matrix: g.NewDenseMatrixN[uint](1, 1)}})
		case 6:
			return g.IsSparseMatrix[uint8](&U9[uint8]{UserMatrix[uint8]{Matrix: g.NewDenseMatrixN[uint8](1, 1)}})
		case 7:
			return g.IsSparseMatrix[uint16](&U9[uint16]{UserMatrix[uint16]{Matrix: g.NewDenseMatrixN[uint16](1, 1)}})
		case 8:
			return g.IsSparseMatrix[uint32](&U9[uint32]{UserMatrix[uint32]{Matrix: g.NewDenseMatrixN[uint32](1, 1)}})
		case 9:
			return g.IsSparseMatrix[uint64](&U9[uint64]{UserMatrix[uint64]{Matrix: g.NewDenseMatrixN[uint64](1, 1)}})
		case 10:
			return g.IsSparseMatrix[uintptr](&U9[uintptr]{UserMatrix[uintptr]{Matrix: g.NewDenseMatrixN[uintptr](1, 1)}})
		case 11:
			return g.IsSparseMatrix[float32](&U9[float32]{UserMatrix[float32]{Matrix: g.NewDenseMatrixN[float32](1, 1)}})
		case 12:
			return g.IsSparseMatrix[float64](&U9[float64]{UserMatrix[float64]{Matrix: g.NewDenseMatrixN[float64](1, 1)}})
		}
		panic("type")
	}},
	{"U10", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U10[int]{})
		case 1:
			return reflect.TypeOf(U10[int8]{})
		case 2:
			return reflect.TypeOf(U10[int16]{})
		case 3:
			return reflect.TypeOf(U10[int32]{})
		case 4:
			return reflect.TypeOf(U10[int64]{})
		case 5:
			return reflect.TypeOf(U10[uint]{})
		case 6:
			return reflect.TypeOf(U10[uint8]{})
		case 7:
			return reflect.TypeOf(U10[uint16]{})
		case 8:
			return reflect.TypeOf(U10[uint32]{})
		case 9:
			return reflect.TypeOf(U10[uint64]{})
		case 10:
			return reflect.TypeOf(U10[uintptr]{})
		case 11:
			return reflect.TypeOf(U10[float32]{})
		case 12:
			return reflect.TypeOf(U10[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U10[int]{g.NewCSRMatrix[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](&U10[int8]{g.NewCSRMatrix[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](&U10[int16]{g.NewCSRMatrix[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](&U10[int32]{g.NewCSRMatrix[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](&U10[int64]{g.NewCSRMatrix[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](&U10[uint]{g.NewCSRMatrix[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](&U10[uint8]{g.NewCSRMatrix[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](&U10[uint16]{g.NewCSRMatrix[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](&U10[uint32]{g.NewCSRMatrix[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](&U10[uint64]{g.NewCSRMatrix[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](&U10[uintptr]{g.NewCSRMatrix[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](&U10[float32]{g.NewCSRMatrix[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](&U10[float64]{g.NewCSRMatrix[float64](1, 1)})
		}
		panic("type")
	}},
	{"U11", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U11[int]{})
		case 1:
			return reflect.TypeOf(U11[int8]{})
		case 2:
			return reflect.TypeOf(U11[int16]{})
		case 3:
			return reflect.TypeOf(U11[int32]{})
		case 4:
			return reflect.TypeOf(U11[int64]{})
		case 5:
			return reflect.TypeOf(U11[uint]{})
		case 6:
			return reflect.TypeOf(U11[uint8]{})
		case 7:
			return reflect.TypeOf(U11[uint16]{})
		case 8:
			return reflect.TypeOf(U11[uint32]{})
		case 9:
			return reflect.TypeOf(U11[uint64]{})
		case 10:
			return reflect.TypeOf(U11[uintptr]{})
		case 11:
			return reflect.TypeOf(U11[float32]{})
		case 12:
			return reflect.TypeOf(U11[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](U11[int]{g.NewDenseMatrixN[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](U11[int8]{g.NewDenseMatrixN[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](U11[int16]{g.NewDenseMatrixN[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](U11[int32]{g.NewDenseMatrixN[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](U11[int64]{g.NewDenseMatrixN[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](U11[uint]{g.NewDenseMatrixN[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](U11[uint8]{g.NewDenseMatrixN[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](U11[uint16]{g.NewDenseMatrixN[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](U11[uint32]{g.NewDenseMatrixN[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](U11[uint64]{g.NewDenseMatrixN[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](U11[uintptr]{g.NewDenseMatrixN[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](U11[float32]{g.NewDenseMatrixN[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](U11[float64]{g.NewDenseMatrixN[float64](1, 1)})
		}
		panic("type")
	}},
	{"U12", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U12[int]{})
		case 1:
			return reflect.TypeOf(U12[int8]{})
		case 2:
			return reflect.TypeOf(U12[int16]{})
		case 3:
			return reflect.TypeOf(U12[int32]{})
		case 4:
			return reflect.TypeOf(U12[int64]{})
		case 5:
			return reflect.TypeOf(U12[uint]{})
		case 6:
			return reflect.TypeOf(U12[uint8]{})
		case 7:
			return reflect.TypeOf(U12[uint16]{})
		case 8:
			return reflect.TypeOf(U12[uint32]{})
		case 9:
			return reflect.TypeOf(U12[uint64]{})
		case 10:
			return reflect.TypeOf(U12[uintptr]{})
		case 11:
			return reflect.TypeOf(U12[float32]{})
		case 12:
			return reflect.TypeOf(U12[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U12[int]{UserMatrix[int]{Matrix: g.NewDenseMatrixN[int](1, 1)}})
		case 1:
			return g.IsSparseMatrix[int8](&U12[int8]{UserMatrix[int8]{Matrix: g.NewDenseMatrixN[int8](1, 1)}})
		case 2:
			return g.IsSparseMatrix[int16](&U12[int16]{UserMatrix[int16]{Matrix: g.NewDenseMatrixN[int16](1, 1)}})
		case 3:
			return g.IsSparseMatrix[int32](&U12[int32]{UserMatrix[int32]{Matrix: g.NewDenseMatrixN[int32](1, 1)}})
		case 4:
			return g.IsSparseMatrix[int64](&U12[int64]{UserMatrix[int64]{Matrix: g.NewDenseMatrixN[int64](1, 1)}})
		case 5:
			return g.IsSparseMatrix[uint](&U12[uint]{UserMatrix[uint]{Matrix: g.NewDenseMatrixN[uint](1, 1)}})
		case 6:
			return g.IsSparseMatrix[uint8](&U12[uint8]{UserMatrix[uint8]{Matrix: g.NewDenseMatrixN[uint8](1, 1)}})
		case 7:
			return g.IsSparseMatrix[uint16](&U12[uint16]{UserMatrix[uint16]{Matrix: g.NewDenseMatrixN[uint16](1, 1)}})
		case 8:
			return g.IsSparseMatrix[uint32](&U12[uint32]{UserMatrix[uint32]{Matrix: g.NewDenseMatrixN[uint32](1, 1)}})
		case 9:
			return g.IsSparseMatrix[uint64](&U12[uint64]{UserMatrix[uint64]{Matrix: g.NewDenseMatrixN[uint64](1, 1)}})
		case 10:
			return g.IsSparseMatrix[uintptr](&U12[uintptr]{UserMatrix[uintptr]{Matrix: g.NewDenseMatrixN[uintptr](1, 1)}})
		case 11:
			return g.IsSparseMatrix[float32](&U12[float32]{UserMatrix[float32]{Matrix: g.NewDenseMatrixN[float32](1, 1)}})
		case 12:
			return g.IsSparseMatrix[float64](&U12[float64]{UserMatrix[float64]{Matrix: g.NewDenseMatrixN[float64](1, 1)}})
		}
		panic("type")
	}},
	{"U13", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U13[int]{})
		case 1:
			return reflect.TypeOf(U13[int8]{})
		case 2:
			return reflect.TypeOf(U13[int16]{})
		case 3:
			return reflect.TypeOf(U13[int32]{})
		case 4:
			return reflect.TypeOf(U13[int64]{})
		case 5:
			return reflect.TypeOf(U13[uint]{})
		case 6:
			return reflect.TypeOf(U13[uint8]{})
		case 7:
			return reflect.TypeOf(U13[uint16]{})
		case 8:
			return reflect.TypeOf(U13[uint32]{})
		case 9:
			return reflect.TypeOf(U13[uint64]{})
		case 10:
			return reflect.TypeOf(U13[uintptr]{})
		case 11:
			return reflect.TypeOf(U13[float32]{})
		case 12:
			return reflect.TypeOf(U13[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U13[int]{g.NewCSRMatrix[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](&U13[int8]{g.NewCSRMatrix[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](&U13[int16]{g.NewCSRMatrix[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](&U13[int32]{g.NewCSRMatrix[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](&U13[int64]{g.NewCSRMatrix[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](&U13[uint]{g.NewCSRMatrix[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](&U13[uint8]{g.NewCSRMatrix[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](&U13[uint16]{g.NewCSRMatrix[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](&U13[uint32]{g.NewCSRMatrix[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](&U13[uint64]{g.NewCSRMatrix[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](&U13[uintptr]{g.NewCSRMatrix[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](&U13[float32]{g.NewCSRMatrix[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](&U13[float64]{g.NewCSRMatrix[float64](1, 1)})
		}
		panic("type")
	}},
	{"U14", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U14[int]{})
		case 1:
			return reflect.TypeOf(U14[int8]{})
		case 2:
			return reflect.TypeOf(U14[int16]{})
		case 3:
			return reflect.TypeOf(U14[int32]{})
		case 4:
			return reflect.TypeOf(U14[int64]{})
		case 5:
			return reflect.TypeOf(U14[uint]{})
		case 6:
			return reflect.TypeOf(U14[uint8]{})
		case 7:
			return reflect.TypeOf(U14[uint16]{})
		case 8:
			return reflect.TypeOf(U14[uint32]{})
		case 9:
			return reflect.TypeOf(U14[uint64]{})
		case 10:
			return reflect.TypeOf(U14[uintptr]{})
		case 11:
			return reflect.TypeOf(U14[float32]{})
		case 12:
			return reflect.TypeOf(U14[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](U14[int]{g.NewDenseMatrixN[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](U14[int8]{g.NewDenseMatrixN[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](U14[int16]{g.NewDenseMatrixN[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](U14[int32]{g.NewDenseMatrixN[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](U14[int64]{g.NewDenseMatrixN[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](U14[uint]{g.NewDenseMatrixN[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](U14[uint8]{g.NewDenseMatrixN[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](U14[uint16]{g.NewDenseMatrixN[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](U14[uint32]{g.NewDenseMatrixN[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](U14[uint64]{g.NewDenseMatrixN[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](U14[uintptr]{g.NewDenseMatrixN[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](U14[float32]{g.NewDenseMatrixN[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](U14[float64]{g.NewDenseMatrixN[float64](1, 1)})
		}
		panic("type")
	}},
	{"U15", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U15[int]{})
		case 1:
			return reflect.TypeOf(U15[int8]{})
		case 2:
			return reflect.TypeOf(U15[int16]{})
		case 3:
			return reflect.TypeOf(U15[int32]{})
		case 4:
			return reflect.TypeOf(U15[int64]{})
		case 5:
			return reflect.TypeOf(U15[uint]{})
		case 6:
			return reflect.TypeOf(U15[uint8]{})
		case 7:
			return reflect.TypeOf(U15[uint16]{})
		case 8:
			return reflect.TypeOf(U15[uint32]{})
		case 9:
			return reflect.TypeOf(U15[uint64]{})
		case 10:
			return reflect.TypeOf(U15[uintptr]{})
		case 11:
			return reflect.TypeOf(U15[float32]{})
		case 12:
			return reflect.TypeOf(U15[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U15[int]{UserMatrix[int]{Matrix: g.NewDenseMatrixN[int](1, 1)}})
		case 1:
			return g.IsSparseMatrix[int8](&U15[int8]{UserMatrix[int8]{Matrix: g.NewDenseMatrixN[int8](1, 1)}})
		case 2:
			return g.IsSparseMatrix[int16](&U15[int16]{UserMatrix[int16]{Matrix: g.NewDenseMatrixN[int16](1, 1)}})
		case 3:
			return g.IsSparseMatrix[int32](&U15[int32]{UserMatrix[int32]{Matrix: g.NewDenseMatrixN[int32](1, 1)}})
		case 4:
			return g.IsSparseMatrix[int64](&U15[int64]{UserMatrix[int64]{Matrix: g.NewDenseMatrixN[int64](1, 1)}})
		case 5:
			return g.IsSparseMatrix[uint](&U15[uint]{UserMatrix[uint]{Matrix: g.NewDenseMatrixN[uint](1, 1)}})
		case 6:
			return g.IsSparseMatrix[uint8](&U15[uint8]{UserMatrix[uint8]{Matrix: g.NewDenseMatrixN[uint8](1, 1)}})
		case 7:
			return g.IsSparseMatrix[uint16](&U15[uint16]{UserMatrix[uint16]{Matrix: g.NewDenseMatrixN[uint16](1, 1)}})
		case 8:
			return g.IsSparseMatrix[uint32](&U15[uint32]{UserMatrix[uint32]{Matrix: g.NewDenseMatrixN[uint32](1, 1)}})
		case 9:
			return g.IsSparseMatrix[uint64](&U15[uint64]{UserMatrix[uint64]{Matrix: g.NewDenseMatrixN[uint64](1, 1)}})
		case 10:
			return g.IsSparseMatrix[uintptr](&U15[uintptr]{UserMatrix[uintptr]{Matrix: g.NewDenseMatrixN[uintptr](1, 1)}})
		case 11:
			return g.IsSparseMatrix[float32](&U15[float32]{UserMatrix[float32]{Matrix: g.NewDenseMatrixN[float32](1, 1)}})
		case 12:
			return g.IsSparseMatrix[float64](&U15[float64]{UserMatrix[float64]{Matrix: g.NewDenseMatrixN[float64](1, 1)}})
		}
		panic("type")
	}},
	{"U16", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U16[int]{})
		case 1:
			return reflect.TypeOf(U16[int8]{})
		case 2:
			return reflect.TypeOf(U16[int16]{})
		case 3:
			return reflect.TypeOf(U16[int32]{})
		case 4:
			return reflect.TypeOf(U16[int64]{})
		case 5:
			return reflect.TypeOf(U16[uint]{})
		case 6:
			return reflect.TypeOf(U16[uint8]{})
		case 7:
			return reflect.TypeOf(U16[uint16]{})
		case 8:
			return reflect.TypeOf(U16[uint32]{})
		case 9:
			return reflect.TypeOf(U16[uint64]{})
		case 10:
			return reflect.TypeOf(U16[uintptr]{})
		case 11:
			return reflect.TypeOf(U16[float32]{})
		case 12:
			return reflect.TypeOf(U16[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U16[int]{g.NewCSRMatrix[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](&U16[int8]{g.NewCSRMatrix[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](&U16[int16]{g.NewCSRMatrix[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](&U16[int32]{g.NewCSRMatrix[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](&U16[int64]{g.NewCSRMatrix[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](&U16[uint]{g.NewCSRMatrix[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](&U16[uint8]{g.NewCSRMatrix[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](&U16[uint16]{g.NewCSRMatrix[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](&U16[uint32]{g.NewCSRMatrix[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](&U16[uint64]{g.NewCSRMatrix[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](&U16[uintptr]{g.NewCSRMatrix[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](&U16[float32]{g.NewCSRMatrix[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](&U16[float64]{g.NewCSRMatrix[float64](1, 1)})
		}
		panic("type")
	}},
	{"U17", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U17[int]{})
		case 1:
			return reflect.TypeOf(U17[int8]{})
		case 2:
			return reflect.TypeOf(U17[int16]{})
		case 3:
			return reflect.TypeOf(U17[int32]{})
		case 4:
			return reflect.TypeOf(U17[int64]{})
		case 5:
			return reflect.TypeOf(U17[uint]{})
		case 6:
			return reflect.TypeOf(U17[uint8]{})
		case 7:
			return reflect.TypeOf(U17[uint16]{})
		case 8:
			return reflect.TypeOf(U17[uint32]{})
		case 9:
			return reflect.TypeOf(U17[uint64]{})
		case 10:
			return reflect.TypeOf(U17[uintptr]{})
		case 11:
			return reflect.TypeOf(U17[float32]{})
		case 12:
			return reflect.TypeOf(U17[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](U17[int]{g.NewDenseMatrixN[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](U17[int8]{g.NewDenseMatrixN[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](U17[int16]{g.NewDenseMatrixN[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](U17[int32]{g.NewDenseMatrixN[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](U17[int64]{g.NewDenseMatrixN[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](U17[uint]{g.NewDenseMatrixN[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](U17[uint8]{g.NewDenseMatrixN[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](U17[uint16]{g.NewDenseMatrixN[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](U17[uint32]{g.NewDenseMatrixN[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](U17[uint64]{g.NewDenseMatrixN[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](U17[uintptr]{g.NewDenseMatrixN[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](U17[float32]{g.NewDenseMatrixN[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](U17[float64]{g.NewDenseMatrixN[float64](1, 1)})
		}
		panic("type")
	}},
	{"U18", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U18[int]{})
		case 1:
			return reflect.TypeOf(U18[int8]{})
		case 2:
			return reflect.TypeOf(U18[int16]{})
		case 3:
			return reflect.TypeOf(U18[int32]{})
		case 4:
			return reflect.TypeOf(U18[int64]{})
		case 5:
			return reflect.TypeOf(U18[uint]{})
		case 6:
			return reflect.TypeOf(U18[uint8]{})
		case 7:
			return reflect.TypeOf(U18[uint16]{})
		case 8:
			return reflect.TypeOf(U18[uint32]{})
		case 9:
			return reflect.TypeOf(U18[uint64]{})
		case 10:
			return reflect.TypeOf(U18[uintptr]{})
		case 11:
			return reflect.TypeOf(U18[float32]{})
		case 12:
			return reflect.TypeOf(U18[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U18[int]{UserMatrix[int]{Matrix: g.NewDenseMatrixN[int](1, 1)}})
		case 1:
			return g.IsSparseMatrix[int8](&U18[int8]{UserMatrix[int8]{Matrix: g.NewDenseMatrixN[int8](1, 1)}})
		case 2:
			return g.IsSparseMatrix[int16](&U18[int16]{UserMatrix[int16]{Matrix: g.NewDenseMatrixN[int16](1, 1)}})
		case 3:
			return g.IsSparseMatrix[int32](&U18[int32]{UserMatrix[int32]{Matrix: g.NewDenseMatrixN[int32](1, 1)}})
		case 4:
			return g.IsSparseMatrix[int64](&U18[int64]{UserMatrix[int64]{Matrix: g.NewDenseMatrixN[int64](1, 1)}})
		case 5:
			return g.IsSparseMatrix[uint](&U18[uint]{UserMatrix[uint]{Matrix: g.NewDenseMatrixN[uint](1, 1)}})
		case 6:
			return g.IsSparseMatrix[uint8](&U18[uint8]{UserMatrix[uint8]{Matrix: g.NewDenseMatrixN[uint8](1, 1)}})
		case 7:
			return g.IsSparseMatrix[uint16](&U18[uint16]{UserMatrix[uint16]{Matrix: g.NewDenseMatrixN[uint16](1, 1)}})
		case 8:
			return g.IsSparseMatrix[uint32](&U18[uint32]{UserMatrix[uint32]{Matrix: g.NewDenseMatrixN[uint32](1, 1)}})
		case 9:
			return g.IsSparseMatrix[uint64](&U18[uint64]{UserMatrix[uint64]{Matrix: g.NewDenseMatrixN[uint64](1, 1)}})
		case 10:
			return g.IsSparseMatrix[uintptr](&U18[uintptr]{UserMatrix[uintptr]{Matrix: g.NewDenseMatrixN[uintptr](1, 1)}})
		case 11:
			return g.IsSparseMatrix[float32](&U18[float32]{UserMatrix[float32]{Matrix: g.NewDenseMatrixN[float32](1, 1)}})
		case 12:
			return g.IsSparseMatrix[float64](&U18[float64]{UserMatrix[float64]{Matrix: g.NewDenseMatrixN[float64](1, 1)}})
		}
		panic("type")
	}},
	{"U19", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U19[int]{})
		case 1:
			return reflect.TypeOf(U19[int8]{})
		case 2:
			return reflect.TypeOf(U19[int16]{})
		case 3:
			return reflect.TypeOf(U19[int32]{})
		case 4:
			return reflect.TypeOf(U19[int64]{})
		case 5:
			return reflect.TypeOf(U19[uint]{})
		case 6:
			return reflect.TypeOf(U19[uint8]{})
		case 7:
			return reflect.TypeOf(U19[uint16]{})
		case 8:
			return reflect.TypeOf(U19[uint32]{})
		case 9:
			return reflect.TypeOf(U19[uint64]{})
		case 10:
			return reflect.TypeOf(U19[uintptr]{})
		case 11:
			return reflect.TypeOf(U19[float32]{})
		case 12:
			return reflect.TypeOf(U19[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U19[int]{g.NewCSRMatrix[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](&U19[int8]{g.NewCSRMatrix[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](&U19[int16]{g.NewCSRMatrix[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](&U19[int32]{g.NewCSRMatrix[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](&U19[int64]{g.NewCSRMatrix[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](&U19[uint]{g.NewCSRMatrix[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](&U19[uint8]{g.NewCSRMatrix[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](&U19[uint16]{g.NewCSRMatrix[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](&U19[uint32]{g.NewCSRMatrix[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](&U19[uint64]{g.NewCSRMatrix[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](&U19[uintptr]{g.NewCSRMatrix[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](&U19[float32]{g.NewCSRMatrix[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](&U19[float64]{g.NewCSRMatrix[float64](1, 1)})
		}
		panic("type")
	}},
	{"UserSparseMatrix", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(UserSparseMatrix[int]{})
		case 1:
			return reflect.TypeOf(UserSparseMatrix[int8]{})
		case 2:
			return reflect.TypeOf(UserSparseMatrix[int16]{})
		case 3:
			return reflect.TypeOf(UserSparseMatrix[int32]{})
		case 4:
			return reflect.TypeOf(UserSparseMatrix[int64]{})
		case 5:
			return reflect.TypeOf(UserSparseMatrix[uint]{})
		case 6:
			return reflect.TypeOf(UserSparseMatrix[uint8]{})
		case 7:
			return reflect.TypeOf(UserSparseMatrix[uint16]{})
		case 8:
			return reflect.TypeOf(UserSparseMatrix[uint32]{})
		case 9:
			return reflect.TypeOf(UserSparseMatrix[uint64]{})
		case 10:
			return reflect.TypeOf(UserSparseMatrix[uintptr]{})
		case 11:
			return reflect.TypeOf(UserSparseMatrix[float32]{})
		case 12:
			return reflect.TypeOf(UserSparseMatrix[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](UserSparseMatrix[int]{g.NewDenseMatrixN[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](UserSparseMatrix[int8]{g.NewDenseMatrixN[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](UserSparseMatrix[int16]{g.NewDenseMatrixN[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](UserSparseMatrix[int32]{g.NewDenseMatrixN[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](UserSparseMatrix[int64]{g.NewDenseMatrixN[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](UserSparseMatrix[uint]{g.NewDenseMatrixN[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](UserSparseMatrix[uint8]{g.NewDenseMatrixN[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](UserSparseMatrix[uint16]{g.NewDenseMatrixN[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](UserSparseMatrix[uint32]{g.NewDenseMatrixN[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](UserSparseMatrix[uint64]{g.NewDenseMatrixN[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](UserSparseMatrix[uintptr]{g.NewDenseMatrixN[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](UserSparseMatrix[float32]{g.NewDenseMatrixN[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](UserSparseMatrix[float64]{g.NewDenseMatrixN[float64](1, 1)})
		}
		panic("type")
	}},
	{"U1x", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U1x[int]{})
		case 1:
			return reflect.TypeOf(U1x[int8]{})
		case 2:
			return reflect.TypeOf(U1x[int16]{})
		case 3:
			return reflect.TypeOf(U1x[int32]{})
		case 4:
			return reflect.TypeOf(U1x[int64]{})
		case 5:
			return reflect.TypeOf(U1x[uint]{})
		case 6:
			return reflect.TypeOf(U1x[uint8]{})
		case 7:
			return reflect.TypeOf(U1x[uint16]{})
		case 8:
			return reflect.TypeOf(U1x[uint32]{})
		case 9:
			return reflect.TypeOf(U1x[uint64]{})
		case 10:
			return reflect.TypeOf(U1x[uintptr]{})
		case 11:
			return reflect.TypeOf(U1x[float32]{})
		case 12:
			return reflect.TypeOf(U1x[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U1x[int]{UserMatrix[int]{Matrix: g.NewDenseMatrixN[int](1, 1)}})
		case 1:
			return g.IsSparseMatrix[int8](&U1x[int8]{UserMatrix[int8]{Matrix: g.NewDenseMatrixN[int8](1, 1)}})
		case 2:
			return g.IsSparseMatrix[int16](&U1x[int16]{UserMatrix[int16]{Matrix: g.NewDenseMatrixN[int16](1, 1)}})
		case 3:
			return g.IsSparseMatrix[int32](&U1x[int32]{UserMatrix[int32]{Matrix: g.NewDenseMatrixN[int32](1, 1)}})
		case 4:
			return g.IsSparseMatrix[int64](&U1x[int64]{UserMatrix[int64]{Matrix: g.NewDenseMatrixN[int64](1, 1)}})
		case 5:
			return g.IsSparseMatrix[uint](&U1x[uint]{UserMatrix[uint]{Matrix: g.NewDenseMatrixN[uint](1, 1)}})
		case 6:
			return g.IsSparseMatrix[uint8](&U1x[uint8]{UserMatrix[uint8]{Matrix: g.NewDenseMatrixN[uint8](1, 1)}})
		case 7:
			return g.IsSparseMatrix[uint16](&U1x[uint16]{UserMatrix[uint16]{Matrix: g.NewDenseMatrixN[uint16](1, 1)}})
		case 8:
			return g.IsSparseMatrix[uint32](&U1x[uint32]{UserMatrix[uint32]{Matrix: g.NewDenseMatrixN[uint32](1, 1)}})
		case 9:
			return g.IsSparseMatrix[uint64](&U1x[uint64]{UserMatrix[uint64]{Matrix: g.NewDenseMatrixN[uint64](1, 1)}})
		case 10:
			return g.IsSparseMatrix[uintptr](&U1x[uintptr]{UserMatrix[uintptr]{Matrix: g.NewDenseMatrixN[uintptr](1, 1)}})
		case 11:
			return g.IsSparseMatrix[float32](&U1x[float32]{UserMatrix[float32]{Matrix: g.NewDenseMatrixN[float32](1, 1)}})
		case 12:
			return g.IsSparseMatrix[float64](&U1x[float64]{UserMatrix[float64]{Matrix: g.NewDenseMatrixN[float64](1, 1)}})
		}
		panic("type")
	}},
	{"U22", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U22[int]{})
		case 1:
			return reflect.TypeOf(U22[int8]{})
		case 2:
			return reflect.TypeOf(U22[int16]{})
		case 3:
			return reflect.TypeOf(U22[int32]{})
		case 4:
			return reflect.TypeOf(U22[int64]{})
		case 5:
			return reflect.TypeOf(U22[uint]{})
		case 6:
			return reflect.TypeOf(U22[uint8]{})
		case 7:
			return reflect.TypeOf(U22[uint16]{})
		case 8:
			return reflect.TypeOf(U22[uint32]{})
		case 9:
			return reflect.TypeOf(U22[uint64]{})
		case 10:
			return reflect.TypeOf(U22[uintptr]{})
		case 11:
			return reflect.TypeOf(U22[float32]{})
		case 12:
			return reflect.TypeOf(U22[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&U22[int]{g.NewCSRMatrix[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](&U22[int8]{g.NewCSRMatrix[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](&U22[int16]{g.NewCSRMatrix[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](&U22[int32]{g.NewCSRMatrix[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](&U22[int64]{g.NewCSRMatrix[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](&U22[uint]{g.NewCSRMatrix[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](&U22[uint8]{g.NewCSRMatrix[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](&U22[uint16]{g.NewCSRMatrix[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](&U22[uint32]{g.NewCSRMatrix[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](&U22[uint64]{g.NewCSRMatrix[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](&U22[uintptr]{g.NewCSRMatrix[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](&U22[float32]{g.NewCSRMatrix[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](&U22[float64]{g.NewCSRMatrix[float64](1, 1)})
		}
		panic("type")
	}},
	{"U23", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(U23[int]{})
		case 1:
			return reflect.TypeOf(U23[int8]{})
		case 2:
			return reflect.TypeOf(U23[int16]{})
		case 3:
			return reflect.TypeOf(U23[int32]{})
		case 4:
			return reflect.TypeOf(U23[int64]{})
		case 5:
			return reflect.TypeOf(U23[uint]{})
		case 6:
			return reflect.TypeOf(U23[uint8]{})
		case 7:
			return reflect.TypeOf(U23[uint16]{})
		case 8:
			return reflect.TypeOf(U23[uint32]{})
		case 9:
			return reflect.TypeOf(U23[uint64]{})
		case 10:
			return reflect.TypeOf(U23[uintptr]{})
		case 11:
			return reflect.TypeOf(U23[float32]{})
		case 12:
			return reflect.TypeOf(U23[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](U23[int]{g.NewDenseMatrixN[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](U23[int8]{g.NewDenseMatrixN[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](U23[int16]{g.NewDenseMatrixN[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](U23[int32]{g.NewDenseMatrixN[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](U23[int64]{g.NewDenseMatrixN[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](U23[uint]{g.NewDenseMatrixN[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](U23[uint8]{g.NewDenseMatrixN[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](U23[uint16]{g.NewDenseMatrixN[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](U23[uint32]{g.NewDenseMatrixN[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](U23[uint64]{g.NewDenseMatrixN[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](U23[uintptr]{g.NewDenseMatrixN[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](U23[float32]{g.NewDenseMatrixN[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](U23[float64]{g.NewDenseMatrixN[float64](1, 1)})
		}
		panic("type")
	}},
	{"other.CSRMatrix", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(other.CSRMatrix[int]{})
		case 1:
			return reflect.TypeOf(other.CSRMatrix[int8]{})
		case 2:
			return reflect.TypeOf(other.CSRMatrix[int16]{})
		case 3:
			return reflect.TypeOf(other.CSRMatrix[int32]{})
		case 4:
			return reflect.TypeOf(other.CSRMatrix[int64]{})
		case 5:
			return reflect.TypeOf(other.CSRMatrix[uint]{})
		case 6:
			return reflect.TypeOf(other.CSRMatrix[uint8]{})
		case 7:
			return reflect.TypeOf(other.CSRMatrix[uint16]{})
		case 8:
			return reflect.TypeOf(other.CSRMatrix[uint32]{})
		case 9:
			return reflect.TypeOf(other.CSRMatrix[uint64]{})
		case 10:
			return reflect.TypeOf(other.CSRMatrix[uintptr]{})
		case 11:
			return reflect.TypeOf(other.CSRMatrix[float32]{})
		case 12:
			return reflect.TypeOf(other.CSRMatrix[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&other.CSRMatrix[int]{g.NewCSRMatrix[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](&other.CSRMatrix[int8]{g.NewCSRMatrix[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](&other.CSRMatrix[int16]{g.NewCSRMatrix[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](&other.CSRMatrix[int32]{g.NewCSRMatrix[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](&other.CSRMatrix[int64]{g.NewCSRMatrix[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](&other.CSRMatrix[uint]{g.NewCSRMatrix[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](&other.CSRMatrix[uint8]{g.NewCSRMatrix[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](&other.CSRMatrix[uint16]{g.NewCSRMatrix[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](&other.CSRMatrix[uint32]{g.NewCSRMatrix[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](&other.CSRMatrix[uint64]{g.NewCSRMatrix[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](&other.CSRMatrix[uintptr]{g.NewCSRMatrix[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](&other.CSRMatrix[float32]{g.NewCSRMatrix[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](&other.CSRMatrix[float64]{g.NewCSRMatrix[float64](1, 1)})
		}
		panic("type")
	}},
	{"other.SparseVector", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(other.SparseVector[int]{})
		case 1:
			return reflect.TypeOf(other.SparseVector[int8]{})
		case 2:
			return reflect.TypeOf(other.SparseVector[int16]{})
		case 3:
			return reflect.TypeOf(other.SparseVector[int32]{})
		case 4:
			return reflect.TypeOf(other.SparseVector[int64]{})
		case 5:
			return reflect.TypeOf(other.SparseVector[uint]{})
		case 6:
			return reflect.TypeOf(other.SparseVector[uint8]{})
		case 7:
			return reflect.TypeOf(other.SparseVector[uint16]{})
		case 8:
			return reflect.TypeOf(other.SparseVector[uint32]{})
		case 9:
			return reflect.TypeOf(other.SparseVector[uint64]{})
		case 10:
			return reflect.TypeOf(other.SparseVector[uintptr]{})
		case 11:
			return reflect.TypeOf(other.SparseVector[float32]{})
		case 12:
			return reflect.TypeOf(other.SparseVector[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&other.SparseVector[int]{g.NewCSRMatrix[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](&other.SparseVector[int8]{g.NewCSRMatrix[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](&other.SparseVector[int16]{g.NewCSRMatrix[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](&other.SparseVector[int32]{g.NewCSRMatrix[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](&other.SparseVector[int64]{g.NewCSRMatrix[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](&other.SparseVector[uint]{g.NewCSRMatrix[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](&other.SparseVector[uint8]{g.NewCSRMatrix[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](&other.SparseVector[uint16]{g.NewCSRMatrix[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](&other.SparseVector[uint32]{g.NewCSRMatrix[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](&other.SparseVector[uint64]{g.NewCSRMatrix[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](&other.SparseVector[uintptr]{g.NewCSRMatrix[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](&other.SparseVector[float32]{g.NewCSRMatrix[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](&other.SparseVector[float64]{g.NewCSRMatrix[float64](1, 1)})
		}
		panic("type")
	}},
	{"other.CSRMatrixLike", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(other.CSRMatrixLike[int]{})
		case 1:
			return reflect.TypeOf(other.CSRMatrixLike[int8]{})
		case 2:
			return reflect.TypeOf(other.CSRMatrixLike[int16]{})
		case 3:
			return reflect.TypeOf(other.CSRMatrixLike[int32]{})
		case 4:
			return reflect.TypeOf(other.CSRMatrixLike[int64]{})
		case 5:
			return reflect.TypeOf(other.CSRMatrixLike[uint]{})
		case 6:
			return reflect.TypeOf(other.CSRMatrixLike[uint8]{})
		case 7:
			return reflect.TypeOf(other.CSRMatrixLike[uint16]{})
		case 8:
			return reflect.TypeOf(other.CSRMatrixLike[uint32]{})
		case 9:
			return reflect.TypeOf(other.CSRMatrixLike[uint64]{})
		case 10:
			return reflect.TypeOf(other.CSRMatrixLike[uintptr]{})
		case 11:
			return reflect.TypeOf(other.CSRMatrixLike[float32]{})
		case 12:
			return reflect.TypeOf(other.CSRMatrixLike[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](other.CSRMatrixLike[int]{g.NewDenseMatrixN[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](other.CSRMatrixLike[int8]{g.NewDenseMatrixN[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](other.CSRMatrixLike[int16]{g.NewDenseMatrixN[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](other.CSRMatrixLike[int32]{g.NewDenseMatrixN[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](other.CSRMatrixLike[int64]{g.NewDenseMatrixN[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](other.CSRMatrixLike[uint]{g.NewDenseMatrixN[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](other.CSRMatrixLike[uint8]{g.NewDenseMatrixN[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](other.CSRMatrixLike[uint16]{g.NewDenseMatrixN[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](other.CSRMatrixLike[uint32]{g.NewDenseMatrixN[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](other.CSRMatrixLike[uint64]{g.NewDenseMatrixN[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](other.CSRMatrixLike[uintptr]{g.NewDenseMatrixN[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](other.CSRMatrixLike[float32]{g.NewDenseMatrixN[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](other.CSRMatrixLike[float64]{g.NewDenseMatrixN[float64](1, 1)})
		}
		panic("type")
	}},
	{"other.DenseMatrixNumber", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(other.DenseMatrixNumber[int]{})
		case 1:
			return reflect.TypeOf(other.DenseMatrixNumber[int8]{})
		case 2:
			return reflect.TypeOf(other.DenseMatrixNumber[int16]{})
		case 3:
			return reflect.TypeOf(other.DenseMatrixNumber[int32]{})
		case 4:
			return reflect.TypeOf(other.DenseMatrixNumber[int64]{})
		case 5:
			return reflect.TypeOf(other.DenseMatrixNumber[uint]{})
		case 6:
			return reflect.TypeOf(other.DenseMatrixNumber[uint8]{})
		case 7:
			return reflect.TypeOf(other.DenseMatrixNumber[uint16]{})
		case 8:
			return reflect.TypeOf(other.DenseMatrixNumber[uint32]{})
		case 9:
			return reflect.TypeOf(other.DenseMatrixNumber[uint64]{})
		case 10:
			return reflect.TypeOf(other.DenseMatrixNumber[uintptr]{})
		case 11:
			return reflect.TypeOf(other.DenseMatrixNumber[float32]{})
		case 12:
			return reflect.TypeOf(other.DenseMatrixNumber[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&other.DenseMatrixNumber[int]{g.NewCSRMatrix[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](&other.DenseMatrixNumber[int8]{g.NewCSRMatrix[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](&other.DenseMatrixNumber[int16]{g.NewCSRMatrix[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](&other.DenseMatrixNumber[int32]{g.NewCSRMatrix[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](&other.DenseMatrixNumber[int64]{g.NewCSRMatrix[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](&other.DenseMatrixNumber[uint]{g.NewCSRMatrix[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](&other.DenseMatrixNumber[uint8]{g.NewCSRMatrix[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](&other.DenseMatrixNumber[uint16]{g.NewCSRMatrix[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](&other.DenseMatrixNumber[uint32]{g.NewCSRMatrix[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](&other.DenseMatrixNumber[uint64]{g.NewCSRMatrix[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](&other.DenseMatrixNumber[uintptr]{g.NewCSRMatrix[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](&other.DenseMatrixNumber[float32]{g.NewCSRMatrix[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](&other.DenseMatrixNumber[float64]{g.NewCSRMatrix[float64](1, 1)})
		}
		panic("type")
	}},
	{"other.DenseVector", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(other.DenseVector[int]{})
		case 1:
			return reflect.TypeOf(other.DenseVector[int8]{})
		case 2:
			return reflect.TypeOf(other.DenseVector[int16]{})
		case 3:
			return reflect.TypeOf(other.DenseVector[int32]{})
		case 4:
			return reflect.TypeOf(other.DenseVector[int64]{})
		case 5:
			return reflect.TypeOf(other.DenseVector[uint]{})
		case 6:
			return reflect.TypeOf(other.DenseVector[uint8]{})
		case 7:
			return reflect.TypeOf(other.DenseVector[uint16]{})
		case 8:
			return reflect.TypeOf(other.DenseVector[uint32]{})
		case 9:
			return reflect.TypeOf(other.DenseVector[uint64]{})
		case 10:
			return reflect.TypeOf(other.DenseVector[uintptr]{})
		case 11:
			return reflect.TypeOf(other.DenseVector[float32]{})
		case 12:
			return reflect.TypeOf(other.DenseVector[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](other.DenseVector[int]{g.NewDenseMatrixN[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](other.DenseVector[int8]{g.NewDenseMatrixN[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](other.DenseVector[int16]{g.NewDenseMatrixN[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](other.DenseVector[int32]{g.NewDenseMatrixN[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](other.DenseVector[int64]{g.NewDenseMatrixN[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](other.DenseVector[uint]{g.NewDenseMatrixN[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](other.DenseVector[uint8]{g.NewDenseMatrixN[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](other.DenseVector[uint16]{g.NewDenseMatrixN[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](other.DenseVector[uint32]{g.NewDenseMatrixN[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](other.DenseVector[uint64]{g.NewDenseMatrixN[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](other.DenseVector[uintptr]{g.NewDenseMatrixN[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](other.DenseVector[float32]{g.NewDenseMatrixN[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](other.DenseVector[float64]{g.NewDenseMatrixN[float64](1, 1)})
		}
		panic("type")
	}},
	{"other.U3", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(other.U3[int]{})
		case 1:
			return reflect.TypeOf(other.U3[int8]{})
		case 2:
			return reflect.TypeOf(other.U3[int16]{})
		case 3:
			return reflect.TypeOf(other.U3[int32]{})
		case 4:
			return reflect.TypeOf(other.U3[int64]{})
		case 5:
			return reflect.TypeOf(other.U3[uint]{})
		case 6:
			return reflect.TypeOf(other.U3[uint8]{})
		case 7:
			return reflect.TypeOf(other.U3[uint16]{})
		case 8:
			return reflect.TypeOf(other.U3[uint32]{})
		case 9:
			return reflect.TypeOf(other.U3[uint64]{})
		case 10:
			return reflect.TypeOf(other.U3[uintptr]{})
		case 11:
			return reflect.TypeOf(other.U3[float32]{})
		case 12:
			return reflect.TypeOf(other.U3[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&other.U3[int]{g.NewCSRMatrix[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](&other.U3[int8]{g.NewCSRMatrix[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](&other.U3[int16]{g.NewCSRMatrix[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](&other.U3[int32]{g.NewCSRMatrix[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](&other.U3[int64]{g.NewCSRMatrix[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](&other.U3[uint]{g.NewCSRMatrix[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](&other.U3[uint8]{g.NewCSRMatrix[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](&other.U3[uint16]{g.NewCSRMatrix[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](&other.U3[uint32]{g.NewCSRMatrix[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](&other.U3[uint64]{g.NewCSRMatrix[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](&other.U3[uintptr]{g.NewCSRMatrix[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](&other.U3[float32]{g.NewCSRMatrix[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](&other.U3[float64]{g.NewCSRMatrix[float64](1, 1)})
		}
		panic("type")
	}},
	{"namesake.CSRMatrix", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(namesake.CSRMatrix[int]{})
		case 1:
			return reflect.TypeOf(namesake.CSRMatrix[int8]{})
		case 2:
			return reflect.TypeOf(namesake.CSRMatrix[int16]{})
		case 3:
			return reflect.TypeOf(namesake.CSRMatrix[int32]{})
		case 4:
			return reflect.TypeOf(namesake.CSRMatrix[int64]{})
		case 5:
			return reflect.TypeOf(namesake.CSRMatrix[uint]{})
		case 6:
			return reflect.TypeOf(namesake.CSRMatrix[uint8]{})
		case 7:
			return reflect.TypeOf(namesake.CSRMatrix[uint16]{})
		case 8:
			return reflect.TypeOf(namesake.CSRMatrix[uint32]{})
		case 9:
			return reflect.TypeOf(namesake.CSRMatrix[uint64]{})
		case 10:
			return reflect.TypeOf(namesake.CSRMatrix[uintptr]{})
		case 11:
			return reflect.TypeOf(namesake.CSRMatrix[float32]{})
		case 12:
			return reflect.TypeOf(namesake.CSRMatrix[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&namesake.CSRMatrix[int]{g.NewCSRMatrix[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](&namesake.CSRMatrix[int8]{g.NewCSRMatrix[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](&namesake.CSRMatrix[int16]{g.NewCSRMatrix[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](&namesake.CSRMatrix[int32]{g.NewCSRMatrix[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](&namesake.CSRMatrix[int64]{g.NewCSRMatrix[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](&namesake.CSRMatrix[uint]{g.NewCSRMatrix[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](&namesake.CSRMatrix[uint8]{g.NewCSRMatrix[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](&namesake.CSRMatrix[uint16]{g.NewCSRMatrix[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](&namesake.CSRMatrix[uint32]{g.NewCSRMatrix[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](&namesake.CSRMatrix[uint64]{g.NewCSRMatrix[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](&namesake.CSRMatrix[uintptr]{g.NewCSRMatrix[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](&namesake.CSRMatrix[float32]{g.NewCSRMatrix[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](&namesake.CSRMatrix[float64]{g.NewCSRMatrix[float64](1, 1)})
		}
		panic("type")
	}},
	{"namesake.SparseVector", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(namesake.SparseVector[int]{})
		case 1:
			return reflect.TypeOf(namesake.SparseVector[int8]{})
		case 2:
			return reflect.TypeOf(namesake.SparseVector[int16]{})
		case 3:
			return reflect.TypeOf(namesake.SparseVector[int32]{})
		case 4:
			return reflect.TypeOf(namesake.SparseVector[int64]{})
		case 5:
			return reflect.TypeOf(namesake.SparseVector[uint]{})
		case 6:
			return reflect.TypeOf(namesake.SparseVector[uint8]{})
		case 7:
			return reflect.TypeOf(namesake.SparseVector[uint16]{})
		case 8:
			return reflect.TypeOf(namesake.SparseVector[uint32]{})
		case 9:
			return reflect.TypeOf(namesake.SparseVector[uint64]{})
		case 10:
			return reflect.TypeOf(namesake.SparseVector[uintptr]{})
		case 11:
			return reflect.TypeOf(namesake.SparseVector[float32]{})
		case 12:
			return reflect.TypeOf(namesake.SparseVector[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](namesake.SparseVector[int]{g.NewDenseMatrixN[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](namesake.SparseVector[int8]{g.NewDenseMatrixN[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](namesake.SparseVector[int16]{g.NewDenseMatrixN[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](namesake.SparseVector[int32]{g.NewDenseMatrixN[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](namesake.SparseVector[int64]{g.NewDenseMatrixN[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](namesake.SparseVector[uint]{g.NewDenseMatrixN[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](namesake.SparseVector[uint8]{g.NewDenseMatrixN[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](namesake.SparseVector[uint16]{g.NewDenseMatrixN[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](namesake.SparseVector[uint32]{g.NewDenseMatrixN[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](namesake.SparseVector[uint64]{g.NewDenseMatrixN[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](namesake.SparseVector[uintptr]{g.NewDenseMatrixN[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](namesake.SparseVector[float32]{g.NewDenseMatrixN[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](namesake.SparseVector[float64]{g.NewDenseMatrixN[float64](1, 1)})
		}
		panic("type")
	}},
	{"namesake.DenseMatrixNumber", func(e int) reflect.Type {
		switch e {
		case 0:
			return reflect.TypeOf(namesake.DenseMatrixNumber[int]{})
		case 1:
			return reflect.TypeOf(namesake.DenseMatrixNumber[int8]{})
		case 2:
			return reflect.TypeOf(namesake.DenseMatrixNumber[int16]{})
		case 3:
			return reflect.TypeOf(namesake.DenseMatrixNumber[int32]{})
		case 4:
			return reflect.TypeOf(namesake.DenseMatrixNumber[int64]{})
		case 5:
			return reflect.TypeOf(namesake.DenseMatrixNumber[uint]{})
		case 6:
			return reflect.TypeOf(namesake.DenseMatrixNumber[uint8]{})
		case 7:
			return reflect.TypeOf(namesake.DenseMatrixNumber[uint16]{})
		case 8:
			return reflect.TypeOf(namesake.DenseMatrixNumber[uint32]{})
		case 9:
			return reflect.TypeOf(namesake.DenseMatrixNumber[uint64]{})
		case 10:
			return reflect.TypeOf(namesake.DenseMatrixNumber[uintptr]{})
		case 11:
			return reflect.TypeOf(namesake.DenseMatrixNumber[float32]{})
		case 12:
			return reflect.TypeOf(namesake.DenseMatrixNumber[float64]{})
		}
		panic("type")
	}, func(e int) bool {
		switch e {
		case 0:
			return g.IsSparseMatrix[int](&namesake.DenseMatrixNumber[int]{g.NewCSRMatrix[int](1, 1)})
		case 1:
			return g.IsSparseMatrix[int8](&namesake.DenseMatrixNumber[int8]{g.NewCSRMatrix[int8](1, 1)})
		case 2:
			return g.IsSparseMatrix[int16](&namesake.DenseMatrixNumber[int16]{g.NewCSRMatrix[int16](1, 1)})
		case 3:
			return g.IsSparseMatrix[int32](&namesake.DenseMatrixNumber[int32]{g.NewCSRMatrix[int32](1, 1)})
		case 4:
			return g.IsSparseMatrix[int64](&namesake.DenseMatrixNumber[int64]{g.NewCSRMatrix[int64](1, 1)})
		case 5:
			return g.IsSparseMatrix[uint](&namesake.DenseMatrixNumber[uint]{g.NewCSRMatrix[uint](1, 1)})
		case 6:
			return g.IsSparseMatrix[uint8](&namesake.DenseMatrixNumber[uint8]{g.NewCSRMatrix[uint8](1, 1)})
		case 7:
			return g.IsSparseMatrix[uint16](&namesake.DenseMatrixNumber[uint16]{g.NewCSRMatrix[uint16](1, 1)})
		case 8:
			return g.IsSparseMatrix[uint32](&namesake.DenseMatrixNumber[uint32]{g.NewCSRMatrix[uint32](1, 1)})
		case 9:
			return g.IsSparseMatrix[uint64](&namesake.DenseMatrixNumber[uint64]{g.NewCSRMatrix[uint64](1, 1)})
		case 10:
			return g.IsSparseMatrix[uintptr](&namesake.DenseMatrixNumber[uintptr]{g.NewCSRMatrix[uintptr](1, 1)})
		case 11:
			return g.IsSparseMatrix[float32](&namesake.DenseMatrixNumber[float32]{g.NewCSRMatrix[float32](1, 1)})
		case 12:
			return g.IsSparseMatrix[float64](&namesake.DenseMatrixNumber[float64]{g.NewCSRMatrix[float64](1, 1)})
		}
		panic("type")
	}},
}
