package main

import "fmt"

// firstIs: whether the first character of in may be c on this path ("yes",
// "no", "may"), or "?" when the path decided something about the text that
// is not understood.
func firstIs(st *State, in *Term, c int64) string {
	for t := range st.facts.bools {
		if !mentions(t, in) {
			continue
		}
		if !firstCharTest(t, in) {
			return "?"
		}
	}
	st = st.clone()
	for _, x := range []*Term{app(KInt, "rune", in, tZero), byteAt(in, tZero)} {
		if !st.facts.assume(tEq(x, tInt(c)), true) {
			return "no"
		}
	}
	for _, op := range []string{"hasprefix"} {
		if !st.facts.assume(app(KBool, op, in, tStr(string(rune(c)))), true) {
			return "no"
		}
	}
	if !st.facts.assume(tLt(tZero, app(KInt, "len", in)), true) {
		return "no"
	}
	return "may"
}

// firstCharTest: t tests whether the text is empty or its first character.
func firstCharTest(t, in *Term) bool {
	first := func(x *Term) bool {
		return x == app(KInt, "rune", in, tZero) || x == byteAt(in, tZero) || x == app(KInt, "len", in) || x == app(KInt, "len", app(KStr, "runes", in))
	}
	switch t.op {
	case "eq", "lt":
		return (first(t.args[0]) && t.args[1].isConst()) || (first(t.args[1]) && t.args[0].isConst()) || t.op == "eq" && (t.args[0] == in && t.args[1].isConst() || t.args[1] == in && t.args[0].isConst())
	case "hasprefix":
		return t.args[0] == in && t.args[1].isConst()
	}
	return false
}

func mentions(t, in *Term) bool {
	if t == in {
		return true
	}
	for _, a := range t.args {
		if mentions(a, in) {
			return true
		}
	}
	return false
}

// textOf is the text handed over as a string or as bytes.
func textOf(st *State, v Value) *Term {
	switch x := st.resolve(v).(type) {
	case *Term:
		return x
	case *BytesV:
		return x.t
	}
	return nil
}

// isTail: t is in without its first (one byte) character.
func isTail(st *State, t, in *Term) bool {
	switch t.op {
	case "droprunes":
		return t.args[0] == in && t.args[1] == tInt(1)
	case "substr":
		return t.args[0] == in && t.args[1] == tInt(1) && t.args[2] == app(KInt, "len", in)
	case "trimprefix":
		p := t.args[1]
		return (p == tStr("S") || p == tStr("s")) && t.args[0] == in && st.facts.truth(app(KBool, "hasprefix", in, t.args[1])) == 1
	}
	return false
}

func init() {
	checks["C13"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of bcdice.ExecuteCommand for any text, with the basic game system and with an unknown one: on every path the conditions on the first character, the text handed to the parser and to the game system, and the mark stored in the result are compared"
		e := execEngine(p)
		ec := e.method("pkg/bcdice", "BCDice", "ExecuteCommand")
		secret, plain := 0, 0
		for _, any := range []bool{false, true} {
			what := "ExecuteCommand"
			if any {
				what += " with any game system"
			}
			e.pipelineScope(any, func(o Outcome, b Value, in *Term) {
				ok := e.nilness(o.st, o.ret[1]) == "nil"
				mark := "absent"
				var obj *PtrV
				if ok {
					var isPtr bool
					obj, isPtr = o.st.resolve(o.ret[0]).(*PtrV)
					if !isPtr {
						undec("result of %T", o.st.resolve(o.ret[0]))
					}
					res, isSt := o.st.load(obj).(*StructV)
					if !isSt {
						undec("result that is %T", o.st.load(obj))
					}
					t, isT := o.st.resolve(res.F[structField(res.T, "IsSecret")]).(*Term)
					if !isT {
						undec("mark of %T", t)
					}
					switch o.st.facts.truth(t) {
					case 1:
						mark = "secret"
					case 0:
						mark = "plain"
					default:
						mark = "unknown"
						if t.op != "sym" {
							undec("mark %s", t)
						}
					}
				}
				st := o.st
				var text *Term
				texts := []*Term{}
				for _, ev := range st.eventList() {
					switch ev.Kind {
					case "parse":
						texts = append(texts, textOf(st, ev.Vals[1]))
					case "bot-execute":
						texts = append(texts, textOf(st, ev.Vals[3]))
					case "bot-execute-failed":
						texts = append(texts, textOf(st, ev.Vals[1]))
					}
				}
				sec := "no"
				for _, c := range []int64{'S', 's'} {
					f := firstIs(st, in, c)
					if f == "?" {
						undec("a condition on the text is not understood")
					}
					if f == "may" {
						sec = "may"
						cs := st.clone()
						if !mustFirst(cs, in) {
							sec = "both"
						}
					}
				}
				_ = text
				switch sec {
				case "may":
					if ok {
						secret++
						r.Check(mark == "secret", "secret-mark", what+": text starts with S or s", e.p.Pos(ec.Pos()), "the result of a secret roll is marked: "+mark)
					}
				case "no":
					if ok {
						plain++
						r.Check(mark == "plain", "secret-mark", what+": text does not start with S or s", e.p.Pos(ec.Pos()), "any other result is not marked: "+mark)
					}
				case "both":
					if ok {
						r.Fail("secret-mark", what+": text may start with S or s", e.p.Pos(ec.Pos()), "the path taken does not tell a text that starts with S or s from one that does not; the result is "+mark)
					}
				}
				for _, t := range texts {
					if t == nil {
						undec("text of unknown origin")
					}
					root := t
					if firstPartOf(t, in) != nil {
						root = firstPartOf(t, in)
					}
					switch sec {
					case "may", "both":
						r.Check(isTail(o.st, root, in), "secret-removed", what, e.p.Pos(ec.Pos()), fmt.Sprintf("exactly the first character is removed from a secret roll: %s", root))
					default:
						empty := st.facts.truth(tLt(app(KInt, "len", in), tInt(1))) == 1 && root == tStr("")
						r.Check(root == in || empty, "text-unchanged", what, e.p.Pos(ec.Pos()), fmt.Sprintf("any other text is executed unchanged: %s", root))
					}
				}
			})
		}
		r.Check(secret > 0, "secret-possible", "ExecuteCommand", "", "a secret roll can succeed")
		r.Check(plain > 0, "plain-possible", "ExecuteCommand", "", "an open roll can succeed")
		r.Min("secret-mark", 4)
		r.Analysed["functions interpreted"] = len(e.analysedFns)
	}
}

// mustFirst: the path's conditions imply that the text starts with S or s.
func mustFirst(st *State, in *Term) bool {
	for t, v := range st.facts.bools {
		if !v {
			continue
		}
		switch t.op {
		case "eq":
			for i := 0; i < 2; i++ {
				if (t.args[i] == app(KInt, "rune", in, tZero) || t.args[i] == byteAt(in, tZero)) && (t.args[1-i] == tInt('S') || t.args[1-i] == tInt('s')) {
					return true
				}
			}
		case "hasprefix":
			if t.args[0] == in && (t.args[1] == tStr("S") || t.args[1] == tStr("s")) {
				return true
			}
		}
	}
	return false
}

// firstPartOf strips the extraction of the first part of a text by a regular
// expression.
func firstPartOf(t, in *Term) *Term {
	for len(t.op) > 8 && t.op[:8] == "submatch" {
		t = t.args[0]
	}
	return t
}
