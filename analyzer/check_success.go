package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"strings"
)

// lastMessagePart is the text appended last to a result's message, or nil.
func (e *Engine) lastMessagePart(st *State, res *StructV) *Term {
	s, ok := st.resolve(res.F[structField(res.T, "MessageParts")]).(*SliceV)
	if !ok || !s.n.isConst() || s.n.k == 0 {
		return nil
	}
	seq, ok := st.obj(s.obj).V.(*SeqV)
	if !ok {
		return nil
	}
	if !seq.exact {
		if os.Getenv("VFA_DBG") != "" {
			fmt.Println("NOTEXACT", s.n, seq.ET, len(seq.elems), seq.lo, seq.hi, seq.split, seq.fval)
		}
		return nil
	}
	t, _ := st.resolve(seq.elems[s.lo.k+s.n.k-1]).(*Term)
	return t
}

func (e *Engine) resultStruct(st *State, v Value) *StructV {
	p, ok := st.resolve(v).(*PtrV)
	if !ok {
		undec("result of %T", st.resolve(v))
	}
	s, ok := st.load(p).(*StructV)
	if !ok {
		undec("result that is %T", st.load(p))
	}
	return s
}

// verdictOf reads a verdict off the words of a message part.
func verdictOf(t *Term) string {
	if t == nil || !t.isConst() {
		return "?"
	}
	switch {
	case strings.Contains(t.s, "成功数"):
		return "none"
	case strings.Contains(t.s, "成功"):
		return "success"
	case strings.Contains(t.s, "失敗"):
		return "failure"
	}
	return "none"
}

func init() {
	checks["C23"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of command execution: for every syntax tree the flag and the last part of the message of every successful result are compared; for a compared value and a target that are any integers the flag is compared, path by path, with the truth of the comparison"
		const pkg = "pkg/core/command"
		flags := map[int64]string{}
		for _, n := range []string{"SUCCESS_CHECK_UNSPECIFIED", "SUCCESS_CHECK_SUCCESS", "SUCCESS_CHECK_FAILURE"} {
			k, ok := p.IntConst(pkg, n)
			if !ok {
				undec("constant %s not found", n)
			}
			flags[k] = map[string]string{"SUCCESS_CHECK_UNSPECIFIED": "none", "SUCCESS_CHECK_SUCCESS": "success", "SUCCESS_CHECK_FAILURE": "failure"}[n]
		}
		flagOf := func(st *State, res *StructV) *Term {
			t, ok := st.resolve(res.F[structField(res.T, "SuccessCheckResult")]).(*Term)
			if !ok {
				undec("flag of %T", res.F[structField(res.T, "SuccessCheckResult")])
			}
			return t
		}
		f := p.Func(pkg, "Execute")
		pos := p.Pos(f.Pos())

		sum, ok := p.IntConst("pkg/core/ast", "D_ROLL_COMP_NODE")
		if !ok {
			undec("constant D_ROLL_COMP_NODE not found")
		}

		// the executor on any two integers
		a, b := namedSym(KInt, "total"), namedSym(KInt, "target")
		known := func(t *Term) bool { return t == a || t == b }
		for _, op := range []struct {
			op string
			t  *Term
		}{{"=", tEq(a, b)}, {"<>", tNot(tEq(a, b))}, {"<", tLt(a, b)}, {">", tLt(b, a)}, {"<=", tLe(a, b)}, {">=", tLe(b, a)}} {
			what := "total " + op.op + " target"
			r.Try(what, func() {
				e := execEngine(p)
				e.inlining()
				var got []Outcome
				e.inScope("flag"+op.op, func() {
					st := newState()
					ev, st := e.newEvaluator(st)
					x, st := e.construct(st, "NewInt", a)
					y, st := e.construct(st, "NewInt", b)
					c, st := e.construct(st, "NewCompare", x, tStr(op.op), y)
					n, st := e.construct(st, "NewDRollComp", c)
					st.events = nil
					got = e.callFunc(nil, nil, f, []Value{n, namedSym(KStr, "gameID"), ev}, nil, st, nil)
				})
				base := linCase{}.with(diff(tInt(math.MinInt64), a, 0), diff(a, tInt(math.MaxInt64), 0), diff(tInt(math.MinInt64), b, 0), diff(b, tInt(math.MaxInt64), 0))
				n := 0
				for _, o := range got {
					if e.nilness(o.st, o.ret[1]) != "nil" {
						r.Fail("flag-agrees", what, pos, "the comparison of two integers may end in an error")
						continue
					}
					n++
					res := e.resultStruct(o.st, o.ret[0])
					flag := flagOf(o.st, res)
					if !flag.isConst() {
						undec("flag %s", flag)
					}
					paths, ok := base.path(o.st, known)
					if !ok {
						undec("decision outside the linear domain:%s", factsText(o.st))
					}
					v := flags[flag.k]
					if v != "success" && v != "failure" {
						r.Fail("flag-agrees", what, pos, "a compared total leaves the flag at "+flag.String())
						continue
					}
					wrong := false
					for _, c := range paths {
						cs, ok := c.literal(op.t, v != "success", known)
						if !ok {
							undec("comparison outside the linear domain")
						}
						for _, x := range cs {
							if !infeasible(x.qs) {
								wrong = true
							}
						}
					}
					r.Check(!wrong, "flag-agrees", what, pos, fmt.Sprintf("flag %q when%s", v, factsText(o.st)))
					if m := verdictOf(e.lastMessagePart(o.st, res)); m != "?" {
						r.Check(m == v, "message-agrees", what, pos, fmt.Sprintf("message %q, flag %q", m, v))
					} else {
						undec("last part of the message")
					}
				}
				r.Check(n > 0, "has-result", what, pos, "some path yields a result")
			})
		}

		r.Try("all commands", func() {
			e := execEngine(p)
			compared := map[string]bool{}
			rt := f.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			e.keepApart = func(st *State, ret []Value) string {
				for _, v := range ret {
					if p, ok := st.resolve(v).(*PtrV); ok && st.dynType(p) != nil && types.Identical(st.dynType(p), types.NewPointer(rt)) {
						res := e.resultStruct(st, p)
						k := ""
						if t := flagOf(st, res); t.isConst() {
							k = t.String()
						}
						return k + verdictOf(e.lastMessagePart(st, res))
					}
				}
				return ""
			}
			e.executeScope(func(o Outcome, kind string) {
				if e.nilness(o.st, o.ret[1]) != "nil" {
					return
				}
				res := e.resultStruct(o.st, o.ret[0])
				flag := flagOf(o.st, res)
				msg := verdictOf(e.lastMessagePart(o.st, res))
				if !flag.isConst() {
					r.Undecided(kind, "flag "+flag.String())
					return
				}
				if e.commandType == nil {
					r.Undecided(kind, "form of the command")
				} else if e.commandType.k != sum {
					r.Check(flags[flag.k] == "none", "flag-unspecified", kind, pos, "a form other than a compared sum roll leaves the flag at "+flags[flag.k])
					return
				}
				if v := flags[flag.k]; v != "none" {
					compared[v] = true
					if msg == "?" {
						r.Undecided(kind, "last part of the message")
						return
					}
					r.Check(msg == v, "message-agrees", kind+": "+v, pos, fmt.Sprintf("message %q, flag %q", msg, v))
				} else {
					r.Check(msg == "none" || msg == "?", "message-agrees", kind, pos, fmt.Sprintf("message %q, flag %q", msg, v))
				}
			})
			for _, v := range []string{"success", "failure"} {
				r.Check(compared[v], "flag-reachable", v, pos, "some command ends in this verdict")
			}
		})

		r.Try("pipeline", func() {
			for _, any := range []bool{false, true} {
				e := execEngine(p)
				e.pipelineScope(any, func(o Outcome, b Value, in *Term) {
					if e.nilness(o.st, o.ret[1]) != "nil" {
						return
					}
					obj := o.st.resolve(o.ret[0]).(*PtrV)
					res := e.resultStruct(o.st, o.ret[0])
					for _, ev := range o.st.eventList() {
						if (ev.Kind == "execute" || ev.Kind == "bot-execute") && ev.Vals[0].(*PtrV).obj == obj.obj {
							old := ev.Vals[1].(*StructV)
							for _, fld := range []string{"SuccessCheckResult", "MessageParts"} {
								i := structField(res.T, fld)
								r.Check(o.st.resolve(res.F[i]) == o.st.resolve(old.F[i]), "flag-handed-on", fmt.Sprintf("%s after %s", fld, ev.Kind), ev.Pos, "ExecuteCommand hands the flag and the message on as they are")
							}
						}
					}
				})
			}
		})
		r.Min("flag-agrees", 6)
		r.Min("flag-unspecified", 8)
		r.Min("flag-handed-on", 2)
	}
}
