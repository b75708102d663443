package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

func debugEngine(p *Prog, what string) {
	if what == "reach" {
		e := newEngine(p)
		rr := e.reach(map[string]bool{"pkg/core/dice/feeder.DieFeeder.Next": true}, e.method("pkg/bcdice", "BCDice", "ExecuteCommand"))
		fmt.Println(len(rr.order))
		for _, x := range rr.extPkgs() {
			fmt.Println(x)
		}
		for _, f := range rr.order {
			if os.Getenv("VFA_ALL") != "" {
				fmt.Println(p.FuncName(f))
			}
		}
		return
	}
	if strings.HasPrefix(what, "seq:") {
		e := execEngine(p)
		e.sequences()
		e.debugSeq(strings.TrimPrefix(what, "seq:"))
		return
	}
	if strings.HasPrefix(what, "act:") {
		dbgAction(p, strings.TrimPrefix(what, "act:"))
		return
	}
	if what == "repl" {
		dbgHelp(p)
		return
	}
	if what == "pipe" {
		e := execEngine(p)
		e.pipelineScope(os.Getenv("VFA_BOT") != "", func(o Outcome, b Value, in *Term) {
			fmt.Println("OUT", o.ret, o.st.facts.bools)
			for _, ev := range o.st.eventList() {
				fmt.Print("   ", ev.Kind, " ", ev.Pos)
				for _, v := range ev.Vals {
					fmt.Print(" ", v)
					if b, ok := v.(*BytesV); ok {
						fmt.Print(" bytes ", b.t)
					}
				}
				fmt.Println()
			}
		})
		return
	}
	e := newEngine(p)
	e.trace = os.Getenv("VFA_TRACE") != ""
	defer func() {
		if r := recover(); r != nil {
			fmt.Println("PANIC", r)
			for fr := e.cur; fr != nil; fr = fr.parent {
				pos := ""
				if fr.site != nil {
					pos = e.p.Pos(fr.site.Pos())
				}
				fmt.Println("   in", e.p.FuncName(fr.fn), "called at", pos)
			}
			fmt.Println("   at", e.curIn, e.sumKey)
			if os.Getenv("VFA_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	switch {
	case what == "init":
		fmt.Println("base objects", len(baseHeap))
	case what == "grammar":
		s := e.grammarValues()
		fmt.Println("start", s)
		var ks []string
		for k := range e.nts {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			n := e.nts[k]
			fmt.Printf("%s incl %s\n", k, n.incl)
			for _, a := range sortedKeys(n.alts) {
				fmt.Printf("    %s = %s\n", a, e.avalString(n.alts[a].v))
			}
		}
		for _, a := range e.altsOf(s) {
			fmt.Println("START", a.nt, a.alt.key)
		}
		for _, k := range sortedKeys(e.parserObls) {
			fmt.Println(e.parserObls[k].OK, k, e.parserObls[k].Detail)
		}
	case what == "writers":
		e.stubRollDice()
		e.stubRolledDice()
		w := e.writers(e.callGraph())
		for _, f := range p.SortedFuncs() {
			if len(w[f]) > 0 {
				fmt.Println(p.FuncName(f), w[f])
			}
		}
	case what == "exec":
		if v := os.Getenv("VFA_STEPS"); v != "" {
			fmt.Sscan(v, &e.maxStep)
		}
		for f := range e.cut {
			fmt.Println("cut", e.p.FuncName(f))
		}
		defer e.dumpSums()
		e.grammarValues()
		e.stubRollDice()
		e.stubRolledDice()
		e.computeRecursion()
		kinds := map[string]int{}
		e.runExecute(func(o Outcome, kind string) {
			k := "OUTCOME " + kind + " " + e.retKey(o.st, o.ret)
			k += fmt.Sprint(" drew ", o.st.drew, " snap ", o.st.snap, " late ", o.st.late, " dice ", e.resultDice(o.st, o.ret[0]))
			kinds[k]++
		})
		for _, k := range sortedKeys(kinds) {
			fmt.Println(k, kinds[k])
		}
		rules := map[string]int{}
		for _, o := range e.obls {
			rules[o.Rule]++
		}
		fmt.Println(rules)
		for _, k := range sortedKeys(e.obls) {
			if !e.obls[k].OK {
				fmt.Println("FAIL", k, e.obls[k].Pos, e.obls[k].Detail)
			}
		}
		fmt.Println(len(e.obls), "obligations")
	}
}

func (e *Engine) dumpSums() {
	if os.Getenv("VFA_EVS") != "" {
		e.dumpEvs()
	}
	cnt := map[string]int{}
	for k, sm := range e.sums {
		if sm.round != e.round {
			cnt["(stale) "+k[:strings.Index(k[1:], "(")+2]]++
			continue
		}
		cnt[k[:strings.Index(k[1:], "(")+2]]++
		if f := os.Getenv("VFA_KEYS"); f != "" && strings.Contains(k, f) {
			fmt.Println("KEY", k)
		}
	}
	if f := os.Getenv("VFA_NTS"); f != "" {
		for _, k := range sortedKeys(e.nts) {
			if strings.Contains(k, f) {
				n := e.nts[k]
				fmt.Printf("NT %s incl %s\n", k, n.incl)
				for _, a := range sortedKeys(n.alts) {
					fmt.Printf("NT    %s = %s\n", a, e.avalString(n.alts[a].v))
				}
			}
		}
	}
	for _, k := range sortedKeys(cnt) {
		fmt.Println(cnt[k], k)
	}
	for _, k := range sortedKeys(fnTime) {
		fmt.Println("time", fnTime[k], fnCount[k], k)
	}
	for _, k := range sortedKeys(e.maxOuts) {
		if e.maxOuts[k] > 4 {
			fmt.Println("outs", e.maxOuts[k], k)
		}
	}
}
