package main

import (
	"fmt"
	"os"
	"time"

	"golang.org/x/tools/go/ssa"
)

var debugWiden bool

func debugFn(p *Program, spec string) {
	rel, name := "", spec
	for i := range spec {
		if spec[i] == ':' {
			rel, name = spec[:i], spec[i+1:]
			break
		}
	}
	fn := p.fn(rel, name)
	if fn == nil {
		fmt.Println("no such fn")
		os.Exit(1)
	}
	e := newEngine(p)
	panicHooks(e)
	e.widenDbg = debugWiden
	st := newState()
	var args []Val
	for _, q := range fn.Params {
		v := symVal(q.Name(), q.Type())
		st.assumeValid(v)
		args = append(args, v)
	}
	t0 := time.Now()
	outs := e.Run(st, fn, args, nil, nil)
	dumpRun(e, outs, t0)
}

func dumpRun(e *Engine, outs []Outcome, t0 time.Time) {
	fmt.Println("outcomes", len(outs), "steps", e.steps, time.Since(t0))
	for i, o := range outs {
		if i < 40 {
			s := ""
			for _, r := range o.ret {
				s += " " + keyOf(r)
			}
			m := ""
			if o.st.mon != nil {
				m = o.st.mon.Key()
			}
			fmt.Println(" ret:", s, " | ", o.st.F.String(), " | ", m)
		}
	}
	for _, id := range e.order {
		f := e.findings[id]
		fmt.Println("FINDING", f.Pos, f.id(), f.Msg)
		for _, t := range f.Trace {
			fmt.Println("     ", t)
		}
	}
	ok := 0
	for _, v := range e.obl {
		if v == 0 {
			ok++
		}
	}
	fmt.Println("obligations", len(e.obl), "ok", ok)
}

// panicHooks reports every reachable run-time panic.
func panicHooks(e *Engine) {
	e.H.Bounds = func(e *Engine, st *State, ins ssa.Instruction, what string, ok bool) {
		e.Check(ok, st, ins, "bounds", ins.Parent().String()+":"+what, "index or slice may be out of range (%s)", what)
	}
	e.H.NilDer = func(e *Engine, st *State, ins ssa.Instruction, v Val) {
		e.Fail(st, ins, "nil", ins.Parent().String()+":"+keyOf(v), "nil dereference of %s", keyOf(v))
	}
	e.H.Panic = func(e *Engine, st *State, ins ssa.Instruction, msg string) {
		e.Fail(st, ins, "panic", ins.Parent().String()+":"+msg, "%s", msg)
	}
}
