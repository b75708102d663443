package main

import (
	"fmt"
	"os"
	"strings"
)

func (e *Engine) dumpEvs() {
	f := os.Getenv("VFA_EVS")
	for k, s := range e.sums {
		if s.round != e.round || !strings.Contains(k, f) {
			continue
		}
		fmt.Println("SUM", s.id, k[:min(len(k), 200)])
		for ok, o := range s.outs {
			fmt.Println("  OUT", ok, o.evs)
			for i, r := range o.ret {
				fmt.Println("    ret", i, e.avalString(r))
				if sh, isS := r.(*AShape); isS {
					for _, a := range e.altsOf(sh.s) {
						fmt.Println("         alt", a.nt, a.alt.key)
					}
				}
			}
			for i, r := range o.post {
				if sh, isS := r.(*AShape); isS {
					for _, a := range e.altsOf(sh.s) {
						fmt.Println("      post", i, a.nt, a.alt.key, e.avalString(a.alt.v))
					}
				}
			}
		}
	}
}

func (e *Engine) dbgCollapse(nt string, a ntAlt) {
	if f := os.Getenv("VFA_COLL"); f != "" && strings.Contains(nt, f) && strings.Contains(e.avalString(a.alt.v), "global") {
		fmt.Println("COLL", nt, "from", a.nt, a.alt.key)
	}
	if f := os.Getenv("VFA_COLL"); f != "" && strings.Contains(nt, f) && strings.HasPrefix(a.alt.key, "global") {
		fmt.Println("COLL", nt, "from", a.nt, a.alt.key, "at", e.curIn.Parent().Name(), e.p.Pos(e.curIn.Pos()))
		for fr := e.cur; fr != nil; fr = fr.parent {
			fmt.Print(" < ", fr.fn.Name())
		}
		fmt.Println(" in", e.sumKey)
	}
}
