package main

import "fmt"

// errValues lists the errors a value may be.
func (e *Engine) errValues(st *State, v Value) []*ErrV {
	switch x := st.resolve(v).(type) {
	case *ErrV:
		return []*ErrV{x}
	case *LazyV:
		var out []*ErrV
		for _, a := range e.altsOf(st.binds[x.id].shape) {
			if ae, ok := a.alt.v.(*AErr); ok {
				out = append(out, ae.e)
			}
		}
		return out
	}
	return nil
}

func init() {
	checks["C02"] = func(p *Prog, r *Report, tier string) {
		r.Explain = "abstract interpretation of command execution over every syntax tree the grammar's actions can build; an error that is reached without any decision about a number, a die or the feeder on its path is a rejection of the form of the command; then execution of representative trees of every form whose numbers are symbolic but usable (positive counts, ordered ranges, thresholds above 1): the only errors left may come from the feeder"
		e := execEngine(p)
		okKinds := map[string]bool{}
		all := map[string]bool{}
		e.executeScope(func(o Outcome, kind string) {
			all[kind] = true
			if e.nilness(o.st, o.ret[1]) == "nil" {
				okKinds[kind] = true
				return
			}
			evs := e.errValues(o.st, o.ret[1])
			if len(evs) == 0 {
				undec("error of unknown origin: %T", o.st.resolve(o.ret[1]))
			}
			for _, ev := range evs {
				r.Check(ev.class != "kind", "rejected-form", fmt.Sprintf("%s: %s", kind, ev.site), ev.pos, "an error of command execution that depends only on the form of the command")
			}
		})
		for k := range all {
			r.Check(okKinds[k], "form-executed", k, "", "a command of this form can be executed to a result")
		}
		r.Min("form-executed", 8)
		execEngine(p).usableNumbers(r, false)
		execEngine(p).usableNumbers(r, true)
		r.Analysed["functions interpreted"] = len(e.analysedFns)
	}
}
