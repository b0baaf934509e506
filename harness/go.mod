module verifharness

go 1.25

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/rossmerr/graphblas v0.0.0
)

replace github.com/rossmerr/graphblas => /repo
