#!/usr/bin/env python3
"""Writes harness/c27_types.go: the user formats that C27 registers."""
types = "int int8 int16 int32 int64 uint uint8 uint16 uint32 uint64 uintptr float32 float64".split()
out = ["//go:build all || c27", "", "// Written by tools/gen_c27.py.", "package main", "", "import (", '\t"reflect"', "", '\tg "github.com/rossmerr/graphblas"', '\t"verifharness/other"', '\tnamesake "verifharness/other/graphblas"', ")", ""]
names = []
for i in range(24):
    n = "U%d" % i
    if i == 20: n = "UserSparseMatrix"
    if i == 21: n = "U1x"
    names.append((n, i % 3))
for n, how in names:
    if how == 0:
        out.append("type %s[T Num] struct{ UserMatrix[T] }" % n)
    else:
        out.append("type %s[T Num] struct{ g.Matrix[T] }" % n)
out.append("")
out.append("type userFormat struct {\n\tname string\n\ttyp func(e int) reflect.Type\n\tsparse func(e int) bool\n}\n")
out.append("var userFormats = []userFormat{")
def entry(n, how, lab):
    out.append("\t{%r, func(e int) reflect.Type {\n\t\tswitch e {" % lab if False else '\t{"%s", func(e int) reflect.Type {\n\t\tswitch e {' % lab)
    for i, t in enumerate(types):
        out.append("\t\tcase %d:\n\t\t\treturn reflect.TypeOf(%s[%s]{})" % (i, n, t))
    out.append('\t\t}\n\t\tpanic("type")\n\t}, func(e int) bool {\n\t\tswitch e {')
    for i, t in enumerate(types):
        if how == 0:
            v = "&%s[%s]{UserMatrix[%s]{Matrix: g.NewDenseMatrixN[%s](1, 1)}}" % (n, t, t, t)
        elif how == 1:
            v = "&%s[%s]{g.NewCSRMatrix[%s](1, 1)}" % (n, t, t)
        else:
            v = "%s[%s]{g.NewDenseMatrixN[%s](1, 1)}" % (n, t, t)
        out.append("\t\tcase %d:\n\t\t\treturn g.IsSparseMatrix[%s](%s)" % (i, t, v))
    out.append('\t\t}\n\t\tpanic("type")\n\t}},')
for n, how in names:
    entry(n, how, n)
for n in "CSRMatrix SparseVector CSRMatrixLike DenseMatrixNumber DenseVector U3".split():
    entry("other." + n, 2 if n in ("CSRMatrixLike", "DenseVector") else 1, "other." + n)
for n in "CSRMatrix SparseVector DenseMatrixNumber".split():
    entry("namesake." + n, 2 if n == "SparseVector" else 1, "namesake." + n)
out.append("}")
open("/verif/harness/c27_types.go", "w").write("\n".join(out) + "\n")
