package main

import "os"

func dbgHelp(p *Prog) {
	e := execEngine(p)
	e.inlining()
	e.trace = true
	e.maxStep = 200000
	if os.Getenv("VFA_MERGE") != "" {
		e.mergeCalls = true
	}
	for _, c := range e.replCommands(newState()) {
		if c.name == os.Getenv("VFA_ONLY") {
			e.inScope("x", func() {
				repl, _, st := e.replWith("random")
				e.callFunc(nil, nil, c.handler.fn, []Value{repl, c.ptr, namedSym(KStr, "argument")}, c.handler.binds, st, nil)
			})
		}
	}
}
