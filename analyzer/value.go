package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- abstract values ----

type Value interface{}

type NilV struct{}

// PtrV points at (a part of) a heap object. A pointer stored in an
// interface is represented by the same value.
type PtrV struct {
	obj  int
	path string // comma separated indices, "" for the whole object
}

type IfaceV struct { // a non-pointer (or typed nil) dynamic value in an interface
	T types.Type
	V Value
}

// LazyV stands for one of the alternatives of its shape, chosen when it is
// first inspected.
type LazyV struct{ id int }

type StructV struct {
	T types.Type
	F []Value
}

type SliceV struct {
	obj    int
	lo     *Term
	n      *Term
	mayNil bool
}

// SeqV is the content of an array or slice backing object: exact elements,
// or a summary: every element with index < split is described by lo, every
// other by hi; one element (focus) may be known individually.
type SeqV struct {
	exact bool
	elems []Value
	ET    types.Type

	lo, hi AVal // nil: there is no such element
	split  *Term
	fidx   *Term
	fval   Value

	// gen names the elements 0..glen-1, if known (see seq.go)
	gen, glen *Term
}

// ElemV points at (a part of) the element idx of a summarised sequence.
type ElemV struct {
	obj  int
	idx  *Term
	path string
}

// ExtV is the content of a struct type foreign to the repository: only its
// text (for buffers and builders) is tracked.
type ExtV struct {
	T    types.Type
	text *Term
}

type MapV struct{ obj int }
type MapC struct {
	keys   map[string]Value // key representation -> value
	kvals  map[string]Value
	closed bool // no other keys
	T      *types.Map
}

type FuncV struct {
	fn    *ssa.Function
	binds []Value
}

// BytesV is a []byte whose content is the string t.
type BytesV struct{ t *Term }

// RunesV is the []rune of t without its first lo runes.
type RunesV struct {
	t  *Term
	lo int64
}

type ErrV struct {
	class string // "user": about the values; "kind": about the kind of a node; "ext": from outside
	site  string
	pos   string
	msg   *Term
}

// UnkV is an opaque non-nil value of a type foreign to the analysis.
type UnkV struct {
	T   types.Type
	tag string
}

type ReflV struct{ v Value }

type IterV struct {
	over Value
	key  string
}

type TupleV []Value

type FloatV struct{ t *Term }

// ---- shapes: regular sets of trees ----

// Shape is a union of alternatives of named nonterminals.
type Shape struct {
	m map[string]map[string]bool // nonterminal -> keys (nil: all)
}

func shapeOf(nt string, keys ...string) *Shape {
	s := &Shape{m: map[string]map[string]bool{}}
	if len(keys) == 0 {
		s.m[nt] = nil
	} else {
		s.m[nt] = map[string]bool{}
		for _, k := range keys {
			s.m[nt][k] = true
		}
	}
	return s
}

func (s *Shape) union(o *Shape) *Shape {
	n := &Shape{m: map[string]map[string]bool{}}
	for _, x := range []*Shape{s, o} {
		for nt, ks := range x.m {
			cur, ok := n.m[nt]
			if ks == nil {
				n.m[nt] = nil
				continue
			}
			if ok && cur == nil {
				continue
			}
			if !ok {
				cur = map[string]bool{}
				n.m[nt] = cur
			}
			for k := range ks {
				cur[k] = true
			}
		}
	}
	return n
}

func (s *Shape) subset(o *Shape) bool {
	for nt, ks := range s.m {
		oks, ok := o.m[nt]
		if !ok {
			return false
		}
		if oks == nil {
			continue
		}
		if ks == nil {
			return false
		}
		for k := range ks {
			if !oks[k] {
				return false
			}
		}
	}
	return true
}

func (s *Shape) String() string {
	var ps []string
	for nt, ks := range s.m {
		if ks == nil {
			ps = append(ps, nt)
			continue
		}
		ps = append(ps, nt+"{"+strings.Join(sortedKeys(ks), " ")+"}")
	}
	sort.Strings(ps)
	return strings.Join(ps, "|")
}

// AVal is an abstract value independent of any state.
type AVal interface{}

type AScalar struct {
	kind   TKind
	consts []*Term // nil: any
	bounds map[*Term]bnd
	widen  int
	tag    string // lengths with equal tags are equal within one result
}

// bnd: v - t <= up, t - v <= dn
type bnd struct {
	up, dn       int64
	hasUp, hasDn bool
}
type AObj struct {
	T types.Type // the struct type
	F []AVal
}
type AStruct struct {
	T types.Type
	F []AVal
}
type ASlice struct {
	exact  bool
	elems  []AVal
	elem   AVal // nil: no element
	n      *AScalar
	mayNil bool
	ET     types.Type
}
type AIface struct {
	T types.Type
	V AVal
}
type AShape struct {
	s    *Shape
	own  string // the result this is an inner part of
	root string // the result this is
}

// tagScope gives the tags of one result their meaning.
type tagScope struct {
	owner string
	m     map[string]*Term
}
type ANil struct{}
type AConstPtr struct{ p *PtrV }
type ABytes struct{ s *AScalar }
type AErr struct{ e *ErrV }
type AUnk struct{ u *UnkV }
type AFunc struct{ f *FuncV }
type AAny struct{ why string }

type Alt struct {
	key string
	v   AVal
}

type NT struct {
	name string
	alts map[string]*Alt
	incl *Shape
}

// ---- state ----

type Origin struct {
	shape   *Shape
	content Value
	root    string
}

type Obj struct {
	T      types.Type
	V      Value
	origin *Origin
	site   string
	full   *Term // of a copy of the dice record: its length
}

type Bind struct {
	shape  *Shape
	init   *Shape
	val    Value // non-nil once chosen
	ivals  Value // the original dynamic value of an interface
	chosen *Shape
	why    string
	scope  *tagScope
}

type Event struct {
	Kind string
	Vals []Value
	Pos  string
	prev *Event
	n    int
}

type State struct {
	heap   map[int]*Obj
	binds  map[int]*Bind
	facts  *Facts
	events *Event
	drew   bool  // dice may have been drawn
	snap   bool  // the dice record may have been copied
	late   bool  // dice may have been drawn after the record was copied
	snapN  *Term // the length of the last copy
}

func newState() *State {
	return &State{heap: map[int]*Obj{}, binds: map[int]*Bind{}, facts: newFacts()}
}

func (s *State) clone() *State {
	n := &State{heap: make(map[int]*Obj, len(s.heap)+4), binds: make(map[int]*Bind, len(s.binds)+4), facts: s.facts.clone(), events: s.events, drew: s.drew, snap: s.snap, late: s.late, snapN: s.snapN}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.binds {
		n.binds[k] = v
	}
	return n
}

// baseHeap holds the objects made by package initialisation.
var baseHeap = map[int]*Obj{}

func (s *State) obj(id int) *Obj {
	if o, ok := s.heap[id]; ok {
		return o
	}
	return baseHeap[id]
}

func (s *State) event(kind, pos string, vals ...Value) {
	n := 0
	if s.events != nil {
		n = s.events.n
	}
	switch kind {
	case "draw":
		s.drew = true
		s.late = s.late || s.snap
	case "late-draw", "snapshot-write":
		s.late = true
	case "snapshot":
		s.snap = true
		s.snapN = nil
		if len(vals) == 1 {
			if sl, ok := vals[0].(*SliceV); ok {
				s.snapN = sl.n
			}
		}
	}
	s.events = &Event{Kind: kind, Vals: vals, Pos: pos, prev: s.events, n: n + 1}
}

func (s *State) eventList() []*Event {
	var out []*Event
	for e := s.events; e != nil; e = e.prev {
		out = append([]*Event{e}, out...)
	}
	return out
}

func (s *State) resolve(v Value) Value {
	for {
		l, ok := v.(*LazyV)
		if !ok {
			return v
		}
		b := s.binds[l.id]
		if b == nil || b.val == nil {
			return v
		}
		v = b.val
	}
}

func pathIdx(p string) []int {
	if p == "" {
		return nil
	}
	var out []int
	for _, x := range strings.Split(p, ",") {
		n, _ := strconv.Atoi(x)
		out = append(out, n)
	}
	return out
}

func pathAdd(p string, i int) string {
	if p == "" {
		return strconv.Itoa(i)
	}
	return p + "," + strconv.Itoa(i)
}

// undecided aborts an analysis that cannot be completed.
type undecided struct{ msg string }

func undec(format string, a ...interface{}) {
	panic(undecided{fmt.Sprintf(format, a...)})
}
func (u undecided) String() string { return "undecided: " + u.msg }
func (u undecided) Error() string  { return "undecided: " + u.msg }

func getPath(v Value, path []int) Value {
	for _, i := range path {
		switch x := v.(type) {
		case *StructV:
			v = x.F[i]
		case *SeqV:
			if !x.exact || i >= len(x.elems) {
				undec("array index beyond known elements")
			}
			v = x.elems[i]
		default:
			undec("cannot select part of %T", v)
		}
	}
	return v
}

func setPath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch x := v.(type) {
	case *StructV:
		n := &StructV{T: x.T, F: append([]Value(nil), x.F...)}
		n.F[path[0]] = setPath(x.F[path[0]], path[1:], nv)
		return n
	case *SeqV:
		if !x.exact {
			undec("store into a part of a summarised sequence")
		}
		n := &SeqV{exact: true, ET: x.ET, elems: append([]Value(nil), x.elems...)}
		n.elems[path[0]] = setPath(x.elems[path[0]], path[1:], nv)
		return n
	}
	if x, ok := v.(*ExtV); ok {
		// nothing is known of the fields of a foreign struct, nor read
		return x
	}
	undec("cannot store into part of %T", v)
	return nil
}

func typeAt(t types.Type, path []int) types.Type {
	for _, i := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(i).Type()
		case *types.Array:
			t = u.Elem()
		default:
			undec("no part %d in %s", i, t)
		}
	}
	return t
}

// load reads through a pointer.
func (s *State) load(p *PtrV) Value {
	o := s.obj(p.obj)
	if o == nil {
		undec("dangling object %d", p.obj)
	}
	return getPath(o.V, pathIdx(p.path))
}

func (s *State) store(p *PtrV, v Value) {
	o := s.obj(p.obj)
	if o == nil {
		undec("dangling object %d", p.obj)
	}
	n := *o
	n.V = setPath(o.V, pathIdx(p.path), v)
	s.heap[p.obj] = &n
}

func (s *State) dynType(p *PtrV) types.Type {
	o := s.obj(p.obj)
	return types.NewPointer(typeAt(o.T, pathIdx(p.path)))
}

func constKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return x.String(), true
		}
	case *IfaceV:
		k, ok := constKey(x.V)
		return x.T.String() + ":" + k, ok
	case *StructV:
		var ks []string
		for _, f := range x.F {
			k, ok := constKey(f)
			if !ok {
				return "", false
			}
			ks = append(ks, k)
		}
		return "{" + strings.Join(ks, ",") + "}", true
	}
	return "", false
}

func shortType(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	return s
}

func fullRange() (int64, int64) { return math.MinInt64, math.MaxInt64 }

// wroteTo notes a change of elements; a changed copy of the dice record is
// no copy any more.
func (s *State) wroteTo(obj int, pos string) {
	if o := s.obj(obj); o != nil && o.site == "snapshot" {
		s.event("snapshot-write", pos)
	}
}

// isSnapshot tells whether a slice is a complete copy of the dice record:
// the copy itself, or nothing while the copy is known to be empty.
func (s *State) isSnapshot(v *SliceV) bool {
	if v.obj >= 0 {
		if o := s.obj(v.obj); o != nil && o.site == "snapshot" && v.lo == tZero && v.n == o.full {
			return true
		}
	}
	if s.snapN == nil || s.facts.truth(tLe(s.snapN, tZero)) != 1 {
		return false
	}
	return s.facts.truth(tLe(v.n, tZero)) == 1
}
