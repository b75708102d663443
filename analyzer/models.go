package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"regexp"
	"regexp/syntax"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of the functions outside the repository.

type modelFn func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome

var models map[string]modelFn

func ret1(st *State, vs ...Value) []Outcome { return []Outcome{{st, vs}} }

// elemsOf lists the elements of an exactly known slice.
func (e *Engine) elemsOf(st *State, v Value) ([]Value, bool) {
	v = st.resolve(v)
	s, ok := asSlice(v)
	if !ok {
		return nil, false
	}
	if s.obj < 0 {
		return nil, true
	}
	q, ok := st.obj(s.obj).V.(*SeqV)
	if !ok || !q.exact || !s.lo.isConst() || !s.n.isConst() {
		return nil, false
	}
	return q.elems[s.lo.k : s.lo.k+s.n.k], true
}

// format renders a value with a formatting verb as a term.
func (e *Engine) format(fr *Frame, c *Cfg, st *State, verb byte, v Value, site ssa.Instruction) *Term {
	v = st.resolve(v)
	switch x := v.(type) {
	case *IfaceV:
		if t, ok := x.V.(*Term); ok {
			switch {
			case t.kind == KStr && (verb == 's' || verb == 'v'):
				// a named string type may have its own String method
				if m := stringMethod(e, x.T); m != nil {
					return freshSym(KStr, "String()")
				}
				return t
			case t.kind == KInt && (verb == 'd' || verb == 'v'):
				if verb == 'v' || verb == 's' {
					if m := stringMethod(e, x.T); m != nil {
						return app(KStr, "strof:"+shortType(x.T), t)
					}
				}
				return itoa(t)
			}
			return app(KStr, "fmt%"+string(verb), t)
		}
	case *ErrV:
		if x.msg != nil {
			return x.msg
		}
	case NilV:
		return tStr("<nil>")
	}
	return freshSym(KStr, "fmt%"+string(verb))
}

func stringMethod(e *Engine, t types.Type) *types.Selection {
	return e.p.SSA.MethodSets.MethodSet(t).Lookup(nil, "String")
}

func itoa(t *Term) *Term {
	if t.isConst() {
		return tStr(strconv.FormatInt(t.k, 10))
	}
	return app(KStr, "itoa", t)
}

// sprintf interprets a constant format.
func (e *Engine) sprintf(fr *Frame, c *Cfg, st *State, format Value, va Value, site ssa.Instruction) (*Term, []Value) {
	ft, ok := st.resolve(format).(*Term)
	args, ok2 := e.elemsOf(st, va)
	if !ok || !ft.isConst() || !ok2 {
		return freshSym(KStr, "sprintf"), args
	}
	var parts []*Term
	s := ft.s
	ai := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			j := i
			for j < len(s) && s[j] != '%' {
				j++
			}
			parts = append(parts, tStr(s[i:j]))
			i = j - 1
			continue
		}
		i++
		for i < len(s) && strings.IndexByte("+-# 0123456789.", s[i]) >= 0 {
			i++
		}
		if i >= len(s) {
			parts = append(parts, tStr("%!(NOVERB)"))
			break
		}
		if s[i] == '%' {
			parts = append(parts, tStr("%"))
			continue
		}
		if ai >= len(args) {
			parts = append(parts, tStr("%!"+string(s[i])+"(MISSING)"))
			continue
		}
		if s[i-1] != '%' {
			parts = append(parts, freshSym(KStr, "fmt"))
		} else {
			parts = append(parts, e.format(fr, c, st, s[i], args[ai], site))
		}
		ai++
	}
	return tConcat(parts...), args
}

// strJoin is strings.Join.
func (e *Engine) strJoin(st *State, v Value, sep *Term) *Term {
	els, ok := e.elemsOf(st, v)
	if !ok {
		if t := e.rejoined(st, v, sep); t != nil {
			return t
		}
		if sl, isSlice := st.resolve(v).(*SliceV); isSlice && e.joins {
			if g := e.contentOf(st, sl); g != nil {
				return app(KStr, "joined", g, sep)
			}
		}
		return freshSym(KStr, "join")
	}
	var parts []*Term
	for i, el := range els {
		if i > 0 {
			parts = append(parts, sep)
		}
		t, ok := st.resolve(el).(*Term)
		if !ok {
			return freshSym(KStr, "join")
		}
		parts = append(parts, t)
	}
	return tConcat(parts...)
}

// rejoined is the text made by joining the pieces of a text again: nil if the
// list is not known to be the pieces of one.
func (e *Engine) rejoined(st *State, v Value, sep *Term) *Term {
	s, ok := v.(*SliceV)
	if !ok {
		return nil
	}
	q, ok := st.obj(s.obj).V.(*SeqV)
	if !ok || q.gen == nil {
		return nil
	}
	cut := e.piecesOf[q.gen]
	if cut == nil || s.lo != tZero || s.n != q.glen {
		return nil
	}
	if cut.op == "split" && cut.args[1] == sep {
		return cut.args[0]
	}
	return app(KStr, "join", cut, sep)
}

// pieces is the list of the pieces of a text.
func (e *Engine) pieces(st *State, t types.Type, minLen int64, cut *Term) *SliceV {
	s := e.strList(st, t, &AScalar{kind: KStr}, minLen)
	if q := st.obj(s.obj).V.(*SeqV); q.gen != nil {
		e.piecesOf[q.gen] = cut
	}
	return s
}

func (e *Engine) strList(st *State, t types.Type, elem AVal, minLen int64) *SliceV {
	id := e.id()
	n := freshSym(KInt, "len:strs")
	st.facts.addLe(tInt(minLen), n, 0)
	st.facts.addLe(n, tZero, maxLen)
	q := &SeqV{ET: types.Typ[types.String], hi: elem}
	if e.seqMode {
		q.gen, q.glen = e.newGen("strings", n), n
	}
	st.heap[id] = &Obj{T: t, V: q, site: "strings"}
	return &SliceV{obj: id, lo: tZero, n: n}
}

func textArg(st *State, v Value) *Term {
	if t, ok := st.resolve(v).(*Term); ok {
		return t
	}
	return freshSym(KStr, "text")
}

func mapStr(op string, f func(string) string) modelFn {
	return func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
		t := st.resolve(args[0]).(*Term)
		if t.isConst() {
			return ret1(st, tStr(f(t.s)))
		}
		return ret1(st, app(KStr, op, t))
	}
}

func mapStr2(op string, f func(a, b string) string) modelFn {
	return func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
		a, b := st.resolve(args[0]).(*Term), st.resolve(args[1]).(*Term)
		if a.isConst() && b.isConst() {
			return ret1(st, tStr(f(a.s, b.s)))
		}
		return ret1(st, app(KStr, op, a, b))
	}
}

func boolStr2(op string, f func(a, b string) bool) modelFn {
	return func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
		a, b := st.resolve(args[0]).(*Term), st.resolve(args[1]).(*Term)
		if a.isConst() && b.isConst() {
			return ret1(st, tBool(f(a.s, b.s)))
		}
		return ret1(st, app(KBool, op, a, b))
	}
}

// extText is the text of a buffer or builder behind a pointer.
func (e *Engine) extText(st *State, v Value) (*PtrV, *ExtV) {
	p, ok := st.resolve(v).(*PtrV)
	if !ok {
		return nil, nil
	}
	x, ok := st.load(p).(*ExtV)
	if !ok {
		return nil, nil
	}
	return p, x
}

func writeText(conv func(e *Engine, st *State, v Value) *Term) modelFn {
	return func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
		t := conv(e, st, st.resolve(args[1]))
		if p, x := e.extText(st, args[0]); p != nil {
			st.store(p, &ExtV{T: x.T, text: tConcat(x.text, t)})
		}
		switch fn.Signature.Results().Len() {
		case 1:
			return ret1(st, NilV{})
		case 2:
			return ret1(st, e.strLen(st, t), NilV{})
		}
		return ret1(st)
	}
}

func termOf(e *Engine, st *State, v Value) *Term {
	switch x := v.(type) {
	case *Term:
		if x.kind == KStr {
			return x
		}
		if x.isConst() {
			return tStr(string(rune(x.k)))
		}
		return app(KStr, "runestr", x)
	case *BytesV:
		return x.t
	}
	return freshSym(KStr, "text")
}

// regexInfo describes a compiled constant pattern.
type regexInfo struct {
	pat    string
	re     *regexp.Regexp
	groups int
	always bool // matches every input
}

var regexes = map[string]*regexInfo{}

func regexInfoOf(pat string) *regexInfo {
	if r, ok := regexes[pat]; ok {
		return r
	}
	re, err := regexp.Compile(pat)
	if err != nil {
		return nil
	}
	ps, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil
	}
	r := &regexInfo{pat: pat, re: re, groups: re.NumSubexp(), always: nullableAnywhere(ps)}
	regexes[pat] = r
	return r
}

// nullableAnywhere: the expression matches at position 0 of every text.
func nullableAnywhere(r *syntax.Regexp) bool {
	switch r.Op {
	case syntax.OpEmptyMatch, syntax.OpBeginText, syntax.OpStar, syntax.OpQuest:
		return true
	case syntax.OpBeginLine:
		return true
	case syntax.OpCapture, syntax.OpPlus:
		return nullableAnywhere(r.Sub[0])
	case syntax.OpRepeat:
		return r.Min == 0 || nullableAnywhere(r.Sub[0])
	case syntax.OpConcat:
		for _, s := range r.Sub {
			if !nullableAnywhere(s) {
				return false
			}
		}
		return true
	case syntax.OpAlternate:
		for _, s := range r.Sub {
			if nullableAnywhere(s) {
				return true
			}
		}
	}
	return false
}

func (e *Engine) regexOf(st *State, v Value) *regexInfo {
	v = st.resolve(v)
	if u, ok := v.(*UnkV); ok && strings.HasPrefix(u.tag, "regexp:") {
		return regexInfoOf(strings.TrimPrefix(u.tag, "regexp:"))
	}
	return nil
}

func init() {
	models = map[string]modelFn{
		"fmt.Errorf": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			msg, va := e.sprintf(fr, c, st, args[0], args[1], site)
			if dbgKind != "" && strings.Contains(e.p.FuncName(fr.fn), dbgKind) && e.errClass(fr, c, site, va) == "kind" {
				fmt.Println("KINDERR", msg, e.stackString(fr))
				for _, p := range fr.fn.Params {
					if l, ok := c.env[p].(*LazyV); ok {
						b := st.binds[l.id]
						fmt.Println("   ", p.Name(), b.shape, "val", b.val, b.why)
						for _, a := range e.altsOf(b.shape) {
							fmt.Println("      ", a.nt, a.alt.key, e.avalString(a.alt.v))
						}
					}
				}
			}
			return ret1(st, &ErrV{class: e.errClass(fr, c, site, va), site: e.p.FuncName(fr.fn), pos: e.p.Pos(site.Pos()), msg: msg})
		},
		"errors.New": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			return ret1(st, &ErrV{class: e.errClass(fr, c, site, nil), site: e.p.FuncName(fr.fn), pos: e.p.Pos(site.Pos()), msg: termOf(e, st, st.resolve(args[0]))})
		},
		"fmt.Sprintf": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			t, _ := e.sprintf(fr, c, st, args[0], args[1], site)
			return ret1(st, t)
		},
		"fmt.Sprint": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			els, ok := e.elemsOf(st, args[0])
			if ok && len(els) == 1 {
				return ret1(st, e.format(fr, c, st, 'v', els[0], site))
			}
			return ret1(st, freshSym(KStr, "sprint"))
		},
		"strings.Join": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			return ret1(st, e.strJoin(st, args[0], st.resolve(args[1]).(*Term)))
		},
		"strings.TrimSpace":  mapStr("trimspace", strings.TrimSpace),
		"strings.ToUpper":    mapStr("upper", strings.ToUpper),
		"strings.ToLower":    mapStr("lower", strings.ToLower),
		"strings.TrimLeft":   mapStr2("trimleft", strings.TrimLeft),
		"strings.TrimRight":  mapStr2("trimright", strings.TrimRight),
		"strings.Trim":       mapStr2("trim", strings.Trim),
		"strings.TrimPrefix": mapStr2("trimprefix", strings.TrimPrefix),
		"strings.TrimSuffix": mapStr2("trimsuffix", strings.TrimSuffix),
		"strings.HasPrefix":  boolStr2("hasprefix", strings.HasPrefix),
		"strings.HasSuffix":  boolStr2("hassuffix", strings.HasSuffix),
		"strings.Contains":   boolStr2("contains", strings.Contains),
		"strings.EqualFold":  boolStr2("equalfold", strings.EqualFold),
		"strings.Repeat": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			n, ok := st.resolve(args[1]).(*Term)
			if ok {
				lo, _ := st.facts.bounds2(n)
				e.obl(lo >= 0, "repeat-count", fr, site.Pos(), "strings.Repeat", "the count may be negative")
			}
			return ret1(st, freshSym(KStr, "repeat"))
		},
		"strings.Split": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			return ret1(st, e.pieces(st, fn.Signature.Results().At(0).Type(), 1, app(KStr, "split", textArg(st, args[0]), textArg(st, args[1]))))
		},
		"strings.Fields": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			return ret1(st, e.pieces(st, fn.Signature.Results().At(0).Type(), 0, app(KStr, "fields", textArg(st, args[0]))))
		},
		"strconv.Itoa": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			return ret1(st, itoa(st.resolve(args[0]).(*Term)))
		},
		"strconv.Atoi": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			t, _ := st.resolve(args[0]).(*Term)
			if t == nil {
				t = freshSym(KStr, "text")
			}
			if t.isConst() {
				if n, err := strconv.Atoi(t.s); err == nil {
					return ret1(st, tInt(int64(n)), NilV{})
				}
			}
			st2 := st.clone()
			st.event("atoi", e.p.Pos(site.Pos()), t)
			// digits only: the numeral is not negative
			v := app(KInt, "atoi", t)
			if e.digitsOnly(st, t) {
				st.facts.addLe(tZero, v, 0)
			}
			e.atoiSites[e.p.Pos(site.Pos())] = true
			return []Outcome{{st, []Value{v, NilV{}}}, {st2, []Value{freshSym(KInt, "atoi-clamped"), &ErrV{class: "user", site: "strconv.Atoi", pos: e.p.Pos(site.Pos()), msg: freshSym(KStr, "atoi-error")}}}}
		},
		"regexp.MustCompile": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			t, ok := st.resolve(args[0]).(*Term)
			tag := "regexp"
			if ok && t.isConst() {
				r := regexInfoOf(t.s)
				e.obl(r != nil, "explicit-panic", fr, site.Pos(), "regexp.MustCompile", "the pattern does not compile")
				tag = "regexp:" + t.s
			} else {
				e.obl(false, "explicit-panic", fr, site.Pos(), "regexp.MustCompile", "the pattern is not constant")
			}
			return ret1(st, &UnkV{fn.Signature.Results().At(0).Type(), tag})
		},
		"(*regexp.Regexp).FindStringSubmatch": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			r := e.regexOf(st, args[0])
			t, ok := st.resolve(args[1]).(*Term)
			rt := fn.Signature.Results().At(0).Type()
			if r == nil || !ok {
				return ret1(st, e.havoc(rt, "submatch", st))
			}
			if t.isConst() {
				m := r.re.FindStringSubmatch(t.s)
				if m == nil {
					return ret1(st, NilV{})
				}
				q := &SeqV{exact: true, ET: types.Typ[types.String]}
				for _, x := range m {
					q.elems = append(q.elems, tStr(x))
				}
				id := e.id()
				st.heap[id] = &Obj{T: rt, V: q, site: "submatch"}
				return ret1(st, &SliceV{obj: id, lo: tZero, n: tInt(int64(len(m)))})
			}
			mk := func(st *State) Value {
				q := &SeqV{exact: true, ET: types.Typ[types.String]}
				for i := 0; i <= r.groups; i++ {
					q.elems = append(q.elems, app(KStr, fmt.Sprintf("submatch%d:%s", i, r.pat), t))
				}
				id := e.id()
				st.heap[id] = &Obj{T: rt, V: q, site: "submatch"}
				return &SliceV{obj: id, lo: tZero, n: tInt(int64(r.groups + 1))}
			}
			if r.always {
				return ret1(st, mk(st))
			}
			st2 := st.clone()
			return []Outcome{{st, []Value{mk(st)}}, {st2, []Value{NilV{}}}}
		},
		"(*regexp.Regexp).ReplaceAllString": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			r := e.regexOf(st, args[0])
			t, ok := st.resolve(args[1]).(*Term)
			s, ok2 := st.resolve(args[2]).(*Term)
			if r != nil && ok && ok2 && s.isConst() && t.isConst() {
				return ret1(st, tStr(r.re.ReplaceAllString(t.s, s.s)))
			}
			if r != nil && ok && ok2 && s.isConst() {
				return ret1(st, app(KStr, "replace:"+r.pat+"->"+s.s, t))
			}
			return ret1(st, freshSym(KStr, "replaced"))
		},
		"(*bytes.Buffer).String":         bufString,
		"(*strings.Builder).String":      bufString,
		"(*bytes.Buffer).WriteString":    writeText(termOf),
		"(*bytes.Buffer).WriteRune":      writeText(termOf),
		"(*bytes.Buffer).WriteByte":      writeText(termOf),
		"(*bytes.Buffer).Write":          writeText(termOf),
		"(*strings.Builder).WriteString": writeText(termOf),
		"(*strings.Builder).WriteRune":   writeText(termOf),
		"(*strings.Builder).WriteByte":   writeText(termOf),
		"(*strings.Builder).Write":       writeText(termOf),
		"(*strings.Builder).Grow":        noop,
		"(*bytes.Buffer).Grow":           noop,
		"(*bytes.Buffer).Len": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			if p, x := e.extText(st, args[0]); p != nil {
				return ret1(st, e.strLen(st, x.text))
			}
			return ret1(st, freshSym(KInt, "len:buf"))
		},
		"reflect.ValueOf": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			return ret1(st, &ReflV{args[0]})
		},
		"reflect.Indirect": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			r, ok := args[0].(*ReflV)
			if !ok {
				return ret1(st, args[0])
			}
			cfg := &Cfg{st: st, env: map[ssa.Value]Value{}, dec: map[*ssa.BasicBlock]bool{}}
			var out []Outcome
			for _, cc := range e.materialise(cfg, r.v) {
				v := cc.st.resolve(r.v)
				if p, ok := v.(*PtrV); ok {
					dt := cc.st.dynType(p).(*types.Pointer).Elem()
					out = append(out, Outcome{cc.st, []Value{&ReflV{&IfaceV{dt, cc.st.load(p)}}}})
				} else {
					out = append(out, Outcome{cc.st, []Value{&ReflV{v}}})
				}
			}
			return out
		},
		"(reflect.Value).Interface": func(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
			if r, ok := args[0].(*ReflV); ok {
				if _, isNil := st.resolve(r.v).(NilV); isNil {
					e.obl(false, "nil-deref", fr, site.Pos(), "reflect.Value.Interface", "the zero reflect.Value has no interface")
					return nil
				}
				return ret1(st, r.v)
			}
			return ret1(st, e.havoc(fn.Signature.Results().At(0).Type(), "reflect", st))
		},
		"(*math/rand.Rand).Intn": randn, "(*math/rand.Rand).Int63n": randn, "(*math/rand.Rand).Int31n": randn, "(*math/rand.Rand).Int64N": randn, "(*math/rand/v2.Rand).IntN": randn,
		"sort.Strings": sorted, "sort.Ints": sorted, "sort.Sort": sorted, "sort.Slice": sorted, "sort.SliceStable": sorted, "sort.Stable": sorted,
		"fmt.Fprint":   printed,
		"fmt.Fprintln": printed,
		"fmt.Fprintf":  printed,
		"fmt.Println":  printed,
		"fmt.Printf":   printed,
		"fmt.Print":    printed,
	}
}

func noop(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
	return ret1(st)
}

func bufString(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
	if p, x := e.extText(st, args[0]); p != nil {
		return ret1(st, x.text)
	}
	return ret1(st, freshSym(KStr, "buffer"))
}

// sorted: a permutation; exact contents become a summary.
func sorted(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
	v := st.resolve(args[0])
	if iv, ok := v.(*IfaceV); ok {
		v = st.resolve(iv.V)
	}
	if s, ok := v.(*SliceV); ok && s.obj >= 0 {
		if q, ok := st.obj(s.obj).V.(*SeqV); ok && q.exact && len(q.elems) <= 1 {
			return ret1(st)
		}
		st.wroteTo(s.obj, e.p.Pos(site.Pos()))
		e.summarise(st, s.obj, e.foldCtx(fr)+"/sort")
		if q, ok := st.obj(s.obj).V.(*SeqV); ok && q.gen != nil {
			o, n := *st.obj(s.obj), *q
			n.gen, n.glen = nil, nil
			o.V = &n
			st.heap[s.obj] = &o
		}
	}
	return ret1(st)
}

// printed: output goes to a writer; the text is recorded as an event.
func printed(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
	n := fn.Name()
	var text *Term
	va := args[len(args)-1]
	switch {
	case strings.HasSuffix(n, "f"):
		text, _ = e.sprintf(fr, c, st, args[len(args)-2], va, site)
	default:
		els, ok := e.elemsOf(st, va)
		if !ok {
			text = freshSym(KStr, "printed")
			break
		}
		var parts []*Term
		for i, el := range els {
			if i > 0 && strings.HasSuffix(n, "ln") {
				parts = append(parts, tStr(" "))
			}
			parts = append(parts, e.format(fr, c, st, 'v', el, site))
		}
		if strings.HasSuffix(n, "ln") {
			parts = append(parts, tStr("\n"))
		}
		text = tConcat(parts...)
	}
	st.event("print", e.p.Pos(site.Pos()), text)
	if call, ok := site.(*ssa.Call); ok && call.Referrers() != nil && len(*call.Referrers()) == 0 {
		// nobody looks at the outcome
		return []Outcome{{st, []Value{freshSym(KInt, "printed"), NilV{}}}}
	}
	return e.havocCall(st, fn.Signature, fn.String(), nil)
}

// digitsOnly: the text is known to consist of digits.
func (e *Engine) digitsOnly(st *State, t *Term) bool {
	v, ok := st.facts.bools[app(KBool, "digits", t)]
	return ok && v
}

// randn is a uniformly distributed number below the argument.
func randn(e *Engine, fr *Frame, c *Cfg, st *State, args []Value, site ssa.Instruction, fn *ssa.Function) []Outcome {
	n, _ := st.resolve(args[1]).(*Term)
	v := freshSym(KInt, "Intn")
	st.facts.addLe(tZero, v, 0)
	st.facts.addLe(v, tZero, math.MaxInt64-1)
	if n != nil {
		lo, _ := st.facts.bounds2(n)
		e.obl(lo >= 1, "rand-range", fr, site.Pos(), "rand.Intn", "the range may be empty: Intn panics")
		st.facts.addLe(v, n, -1)
		st.event("intn", e.p.Pos(site.Pos()), n, v)
	}
	return ret1(st, v)
}

var dbgKind = os.Getenv("VFA_KIND")
