package main

import "golang.org/x/tools/go/ssa"

func valueOf(in ssa.Instruction) (ssa.Value, bool) {
	v, ok := in.(ssa.Value)
	return v, ok
}
