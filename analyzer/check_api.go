package main

import (
	"fmt"
	"go/types"
	"net/http"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const echoPath = "github.com/labstack/echo"

type route struct {
	method, path string
	h            *FuncV
	st           *State
	pos          string
}

// watchAnswers makes every method of echo.Context that answers a request an
// event.
func (e *Engine) watchAnswers(ctx *types.Named) {
	it := ctx.Underlying().(*types.Interface)
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		sig := m.Type().(*types.Signature)
		if sig.Results().Len() != 1 || !isErrorType(sig.Results().At(0).Type()) {
			continue
		}
		switch m.Name() {
		case "Bind", "Validate", "Err":
			continue
		}
		name := m.Name()
		e.istubs[e.relType(ctx)+"."+name] = func(e *Engine, fr *Frame, st *State, args []Value, site ssaInstr) []Outcome {
			var vals []Value
			for _, a := range args[1:] {
				if iv, ok := st.resolve(a).(*IfaceV); ok {
					a = iv.V
				}
				a = st.resolve(a)
				if m, ok := a.(*MapV); ok {
					a = &MapSnap{st.obj(m.obj).V.(*MapC)}
				}
				vals = append(vals, a)
			}
			st2 := st.clone()
			for _, s := range []*State{st, st2} {
				s.event("answer", e.p.Pos(site.Pos()), append([]Value{tStr(name)}, vals...)...)
			}
			return []Outcome{{st, []Value{NilV{}}}, {st2, []Value{&ErrV{class: "ext", site: "answer", msg: freshSym(KStr, "err")}}}}
		}
	}
}

// MapSnap is the content of a map at one moment.
type MapSnap struct{ c *MapC }

// okAgrees checks one JSON answer; code and body are the arguments.
func (e *Engine) okAgrees(st *State, code, body Value) (string, bool) {
	c, ok := st.resolve(code).(*Term)
	if !ok {
		undec("status of %T", code)
	}
	if iv, isIf := body.(*IfaceV); isIf {
		body = iv.V
	}
	m, ok := body.(*MapSnap)
	if !ok {
		undec("JSON body of %T", body)
	}
	v, has := m.c.keys[`"ok"`]
	if !has {
		for k, x := range m.c.keys {
			if t, isT := m.c.kvals[k].(*Term); isT && t.isConst() && t.s == "ok" {
				v, has = x, true
			}
		}
	}
	if !has {
		if !m.c.closed {
			undec("JSON body with unknown fields")
		}
		return "the body has no ok field", false
	}
	v = st.resolve(v)
	if iv, isIf := v.(*IfaceV); isIf {
		v = st.resolve(iv.V)
	}
	t, isT := v.(*Term)
	if !isT || t.kind != KBool {
		return fmt.Sprintf("the ok field is a %T", v), false
	}
	is200 := st.facts.truth(tEq(c, tInt(http.StatusOK)))
	okv := st.facts.truth(t)
	switch {
	case t == tEq(c, tInt(http.StatusOK)):
		return "", true
	case is200 >= 0 && is200 == okv:
		return "", true
	case is200 >= 0 && okv >= 0:
		return fmt.Sprintf("status %s, ok %v", c, okv == 1), false
	case t.isConst() && is200 < 0:
		return fmt.Sprintf("ok is %v whatever the status (%s) is", t.b, c), false
	}
	undec("ok field %s for status %s", t, c)
	return "", false
}

func init() {
	checks["C19"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of the registration of routes, of every registered handler on an arbitrary request and of every response helper with any status: each path answers exactly once, and the ok field of each JSON answer is compared with its status"
		const api = "cmd/GoBCDiceAPI"
		ctxT := p.extType(echoPath, "Context")
		answers := func(st *State) (out []*Event) {
			for _, ev := range st.eventList() {
				if ev.Kind == "answer" {
					ev := ev
					out = append(out, ev)
				}
			}
			return out
		}
		jsonAnswer := func(e *Engine, what string, st *State) {
			for _, a := range answers(st) {
				n := a.Vals[0].(*Term).s
				switch n {
				case "JSON", "JSONPretty":
					why, ok := e.okAgrees(st, a.Vals[1], a.Vals[2])
					r.Check(ok, "ok-iff-200", what, a.Pos, why)
				case "JSONBlob", "JSONP", "JSONPBlob":
					undec("answer by %s", n)
				}
			}
		}
		r.Try("routes", func() {
			e := execEngine(p)
			e.inlining()
			routes := e.routes(r)
			e.watchAnswers(ctxT)
			for _, rt := range routes {
				what := rt.method + " " + rt.path
				r.Try(what, func() {
					var outs []Outcome
					e.inScope(what, func() {
						st := rt.st.clone()
						st.events = nil
						outs = e.callFunc(nil, nil, rt.h.fn, []Value{&UnkV{ctxT, "ctx"}}, rt.h.binds, st, nil)
					})
					for _, o := range outs {
						as := answers(o.st)
						r.Check(len(as) == 1, "answers-once", what, rt.pos, fmt.Sprintf("%d answers on a path", len(as)))
						jsonAnswer(e, what, o.st)
					}
					r.Check(len(outs) > 0, "handler-returns", what, rt.pos, "the handler returns")
				})
			}
		})
		// the helpers, with any status
		r.Try("helpers", func() {
			pkg := p.Pkg(api + "/helpers")
			for _, n := range pkg.Pkg.Scope().Names() {
				f := p.Func(api+"/helpers", n)
				if f == nil || len(f.Params) == 0 || !types.Identical(f.Params[0].Type(), ctxT) || f.Signature.Results().Len() != 1 {
					continue
				}
				r.Try(n, func() {
					e := execEngine(p)
					e.inlining()
					e.watchAnswers(ctxT)
					e.istubs[e.relType(p.NamedType(api+"/helpers", "Responsible"))+".ToResponseMap"] = func(e *Engine, fr *Frame, st *State, args []Value, site ssaInstr) []Outcome {
						return []Outcome{{st, []Value{e.someMap(st, p.NamedType(api+"/helpers", "ResponseMap"))}}}
					}
					var outs []Outcome
					e.inScope(n, func() {
						st := newState()
						args := []Value{&UnkV{ctxT, "ctx"}}
						for _, prm := range f.Params[1:] {
							switch u := prm.Type().Underlying().(type) {
							case *types.Pointer:
								args = append(args, e.pointee(st, prm.Type()))
							case *types.Map:
								args = append(args, e.someMap(st, prm.Type()))
							case *types.Interface:
								args = append(args, &UnkV{prm.Type(), prm.Name()})
							case *types.Basic:
								_ = u
								args = append(args, e.havoc(prm.Type(), prm.Name(), st))
							default:
								args = append(args, e.havoc(prm.Type(), prm.Name(), st))
							}
						}
						outs = e.callFunc(nil, nil, f, args, nil, st, nil)
					})
					for _, o := range outs {
						as := answers(o.st)
						r.Check(len(as) == 1, "answers-once", n, p.Pos(f.Pos()), fmt.Sprintf("%d answers on a path", len(as)))
						jsonAnswer(e, n, o.st)
					}
				})
			}
		})
		r.Min("ok-iff-200", 6)
		r.Min("answers-once", 6)
	}
}

// someMap is a map with unknown content.
func (e *Engine) someMap(st *State, t types.Type) Value {
	id := e.id()
	st.heap[id] = &Obj{T: t, V: &MapC{keys: map[string]Value{}, kvals: map[string]Value{}, T: t.Underlying().(*types.Map)}, site: "any"}
	return &MapV{id}
}

// extType finds a type of an imported package.
func (p *Prog) extType(path, name string) *types.Named {
	for _, pkg := range p.SSA.AllPackages() {
		if pkg.Pkg.Path() == path {
			if tn, ok := pkg.Pkg.Scope().Lookup(name).(*types.TypeName); ok {
				return tn.Type().(*types.Named)
			}
		}
	}
	undec("%s.%s not found", path, name)
	return nil
}

// routes interprets the registration of the routes of the web API.
func (e *Engine) routes(r *Report) []route {
	setup := e.p.Func("cmd/GoBCDiceAPI/controllers", "Setup")
	var routes []route
	text := func(st *State, v Value) string {
		t, ok := st.resolve(v).(*Term)
		if !ok || !t.isConst() {
			undec("route of %v", v)
		}
		return t.s
	}
	prefix := func(st *State, v Value) string {
		if u, ok := st.resolve(v).(*UnkV); ok && strings.HasPrefix(u.tag, "group:") {
			return strings.TrimPrefix(u.tag, "group:")
		}
		return ""
	}
	add := func(method string) stubFn {
		return func(e *Engine, fr *Frame, st *State, args []Value, site ssaInstr) []Outcome {
			i, m := 1, method
			if m == "" {
				m = text(st, args[1])
				i = 2
			}
			h, ok := st.resolve(args[i+1]).(*FuncV)
			if !ok {
				if _, isNil := st.resolve(args[i+1]).(NilV); isNil {
					r.Fail("handler", m+" "+text(st, args[i]), e.p.Pos(site.Pos()), "the route has no handler")
					return e.havocCall(st, site.(ssa.CallInstruction).Common().Signature(), "route", nil)
				}
				undec("handler of %T", st.resolve(args[i+1]))
			}
			st.event("route", e.p.Pos(site.Pos()), tStr(m), tStr(prefix(st, args[0])+text(st, args[i])), h)
			return e.havocCall(st, site.(ssa.CallInstruction).Common().Signature(), "route", nil)
		}
	}
	group := func(e *Engine, fr *Frame, st *State, args []Value, site ssaInstr) []Outcome {
		t := site.(ssa.CallInstruction).Common().Signature().Results().At(0).Type()
		return []Outcome{{st, []Value{&UnkV{t, "group:" + prefix(st, args[0]) + text(st, args[1])}}}}
	}
	for _, recv := range []string{"Router", "Group", "Echo"} {
		pre := "(*" + echoPath + "." + recv + ")."
		e.stubs[pre+"Add"] = add("")
		for _, m := range []string{"GET", "POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "TRACE", "CONNECT"} {
			e.stubs[pre+m] = add(m)
		}
		e.stubs[pre+"Group"] = group
	}
	var outs []Outcome
	e.inScope("setup", func() {
		st := newState()
		outs = e.callFunc(nil, nil, setup, []Value{&UnkV{setup.Params[0].Type(), "echo"}}, nil, st, nil)
	})
	o := single(outs, "controllers.Setup")
	seen := map[string]bool{}
	for _, ev := range o.st.eventList() {
		if ev.Kind != "route" {
			continue
		}
		rt := route{ev.Vals[0].(*Term).s, ev.Vals[1].(*Term).s, ev.Vals[2].(*FuncV), o.st, ev.Pos}
		k := rt.method + " " + rt.path
		r.Check(!seen[k], "route-once", k, ev.Pos, "the route is registered twice")
		seen[k] = true
		routes = append(routes, rt)
	}
	var ks []string
	for k := range seen {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r.Analysed["routes"] = len(ks)

	return routes
}

func init() {
	checks["C29"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "effect analysis of every registered handler: abstract interpretation of each handler on an arbitrary request shows that it changes no memory that existed before the request; no function a handler can reach in this repository writes a package-level variable, and no package-level variable it reads is ever written outside initialisation"
		r.Assume = append(r.Assume, "the echo framework and the standard library serve concurrent requests independently")
		ctxT := p.extType(echoPath, "Context")
		e := execEngine(p)
		e.inlining()
		var routes []route
		r.Try("routes", func() { routes = e.routes(newReport("routes")) })
		e.watchAnswers(ctxT)
		var roots []*ssa.Function
		seenH := map[*ssa.Function]bool{}
		for _, rt := range routes {
			if !seenH[rt.h.fn] {
				seenH[rt.h.fn] = true
				roots = append(roots, rt.h.fn)
			}
			what := rt.method + " " + rt.path
			r.Try(what, func() {
				var outs []Outcome
				var before *State
				e.inScope(what, func() {
					before = rt.st.clone()
					before.events = nil
					outs = e.callFunc(nil, nil, rt.h.fn, []Value{&UnkV{ctxT, "ctx"}}, rt.h.binds, before.clone(), nil)
				})
				for _, o := range outs {
					for _, ev := range o.st.eventList() {
						if ev.Kind == "global-store" {
							r.Fail("shared-write", what, ev.Pos, "the handler changes a package-level variable or what it holds")
						}
					}
					for id, old := range before.heap {
						if now := o.st.heap[id]; now != nil && now != old && fmt.Sprint(now.V) != fmt.Sprint(old.V) {
							r.Fail("shared-write", what, rt.pos, fmt.Sprintf("the handler changes memory made before the request (%s)", old.T))
						}
					}
				}
				r.OK("shared-write", what, rt.pos, fmt.Sprintf("%d paths", len(outs)))
			})
		}
		rr := e.reach(nil, roots...)
		mut := e.mutableGlobals()
		for _, f := range rr.order {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					for _, a := range written(in) {
						for _, g := range rootsOf(a).globals {
							r.Fail("global-write", p.FuncName(f)+" writes "+g.Name(), p.Pos(in.Pos()), "a package-level variable is changed while serving a request: "+rr.path(f))
						}
					}
					for _, op := range in.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok && mut[g] != "" {
							r.Fail("mutable-global", p.FuncName(f)+" reads "+g.Name(), p.Pos(in.Pos()), "a package-level variable that is written at "+mut[g]+" is used while serving a request: "+rr.path(f))
						}
					}
				}
			}
		}
		r.OK("global-write", "all functions a handler can reach", "", fmt.Sprintf("%d functions", len(rr.order)))
		r.Analysed["functions reachable"] = len(rr.order)
		r.Min("shared-write", 4)
	}
}
