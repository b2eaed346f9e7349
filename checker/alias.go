package main

import "golang.org/x/tools/go/ssa"

type ssaIns = ssa.Instruction
