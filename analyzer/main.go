// Command vfa decides the properties of /verif/properties.jsonl for the
// source tree of GoBCDice by static analysis.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"time"
)

type checkFunc func(p *Prog, r *Report, tier string)

var checks = map[string]checkFunc{}

func main() {
	repo := flag.String("repo", "/repo", "source tree to analyse")
	verif := flag.String("verif", "/verif", "framework directory")
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	verbose := flag.Bool("v", false, "print every obligation")
	debugGrammar := flag.Bool("grammar", false, "print the extracted grammar")
	dbg := flag.String("dbg", "", "debugging output of the engine")
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	if *dbg != "" {
		if f := os.Getenv("VFA_PROF"); f != "" {
			w, _ := os.Create(f)
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
		p, err := loadRepo(*repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		debugEngine(p, *dbg)
		return
	}

	start := time.Now()
	if *debugGrammar {
		p, err := loadRepo(*repo)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		g, err := extractGrammar(p)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		fmt.Print(g.String())
		return
	}
	f, ok := checks[*prop]
	if !ok {
		fmt.Printf("unknown property %q\n", *prop)
		os.Exit(2)
	}
	r := newReport(*prop)
	r.Try("analysis", func() {
		p, err := loadRepo(*repo)
		if err != nil {
			r.Fail("load", "repository", "", err.Error())
			return
		}
		r.Analysed["packages"] = len(p.Pkgs)
		r.Analysed["functions"] = len(p.Funcs)
		f(p, r, *tier)
	})
	os.Exit(r.emit(*verif, *tier, start, *verbose))
}
