package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P12"] = checkP12 }

// returnsError tells whether the last result of sig is an error.
func returnsError(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && isError(sig.Results().At(n-1).Type())
}

// neverFails lists calls whose error result carries no failure of the
// operation: error constructors, writers into memory, hashes and text output,
// and the closing of something already read.
func neverFails(name string) bool {
	if strings.HasPrefix(name, "(*bytes.Buffer).Read") && !strings.HasSuffix(name, "ReadFrom") {
		return false // fails at the end of what the buffer holds
	}
	for _, p := range []string{"fmt.", "errors.", "github.com/pkg/errors.", "(*bytes.Buffer)", "(*strings.Builder)", "(*log.Logger)", "io.WriteString", "(hash.", "log."} {
		if strings.HasPrefix(name, p) && !strings.HasPrefix(name, "fmt.Sscan") && !strings.HasPrefix(name, "fmt.Fscan") {
			return true
		}
	}
	if name == "(*golang.org/x/text/encoding.Decoder).Bytes" { // every byte is a character of ISO 8859-1
		return true
	}
	return strings.HasSuffix(name, ").Close") || strings.HasSuffix(name, ").Write") && strings.Contains(name, "hash")
}

// closesWriter tells whether a call closes something that is only written to,
// which is when buffered output is written.
func closesWriter(i ssa.Instruction) bool {
	ci, ok := i.(ssa.CallInstruction)
	if !ok || !ci.Common().IsInvoke() || ci.Common().Method.Name() != "Close" {
		return false
	}
	it, ok := ci.Common().Value.Type().Underlying().(*types.Interface)
	return ok && it.NumMethods() == 2 && it.Method(1).Name() == "Write"
}

// writesText tells whether a function of the repository writes to a given
// writer or logger: like fmt.Fprintf its failures concern the output only.
func writesText(sig *types.Signature) bool {
	for i := 0; i < sig.Params().Len(); i++ {
		switch sig.Params().At(i).Type().String() {
		case "io.Writer", "*log.Logger":
			return true
		}
	}
	return false
}

func calleeName(k *Call) string {
	n := k.Name
	if k.Callee != nil && k.Callee.Synthetic != "" && k.Callee.Object() != nil {
		n = k.Callee.Object().(*types.Func).FullName()
	}
	return strings.ReplaceAll(n, modPath+"/", "")
}

// faults runs the functions of the library with failing callees.
type faults struct {
	c        *Ctx
	carriers map[*ssa.Function]bool // report no error but make calls that may fail
	endings  map[*ssa.Function]bool // end a dialog
	splits   bool                   // the function looked at takes texts apart
}

func (x *faults) fallible(sig *types.Signature, name string, callee *ssa.Function) bool {
	return returnsError(sig) && !neverFails(name) && !(callee != nil && x.c.P.InRepo(callee) && writesText(sig)) && (callee == nil || !x.endings[callee])
}

func newFaults(c *Ctx) *faults {
	x := &faults{c: c, carriers: map[*ssa.Function]bool{}, endings: map[*ssa.Function]bool{}}
	out, _ := c.P.callGraph()
	calls := func(fn *ssa.Function, f func(ci ssa.CallInstruction, callees []*ssa.Function)) {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					f(ci, out[ci])
				}
			}
		}
	}
	// functions that send the end of a dialog and nothing else
	reach := func(fn *ssa.Function, target string) bool {
		seen := map[*ssa.Function]bool{}
		found := false
		var rec func(f *ssa.Function)
		rec = func(f *ssa.Function) {
			if seen[f] || found {
				return
			}
			seen[f] = true
			if f.Name() == target && pkgRel(f) == "message" {
				found = true
				return
			}
			if pkgRel(f) != "dialog" {
				return
			}
			calls(f, func(ci ssa.CallInstruction, cs []*ssa.Function) {
				for _, g := range cs {
					rec(g)
				}
			})
		}
		rec(fn)
		return found
	}
	for _, fn := range c.P.AllFuncs() {
		if pkgRel(fn) == "dialog" && fn.Parent() == nil && reach(fn, "NewDialogFinishingMessage") &&
			!reach(fn, "NewDialogInitializationClientMessage") && !reach(fn, "NewSynchronisationMessage") {
			x.endings[fn] = true
		}
	}
	// carriers, bottom up
	for changed := true; changed; {
		changed = false
		for _, fn := range c.P.AllFuncs() {
			if x.carriers[fn] || returnsError(fn.Signature) || !libraryPkg(fn) || len(fn.Blocks) == 0 || fn.Name() == "init" {
				continue
			}
			calls(fn, func(ci ssa.CallInstruction, cs []*ssa.Function) {
				sig := ci.Common().Signature()
				name := ""
				if ci.Common().IsInvoke() {
					name = ci.Common().Method.FullName()
				} else if sc := ci.Common().StaticCallee(); sc != nil {
					name = sc.String()
				}
				var one *ssa.Function
				if len(cs) == 1 {
					one = cs[0]
				}
				if x.fallible(sig, name, one) {
					if !x.carriers[fn] {
						changed = true
					}
					x.carriers[fn] = true
				}
				for _, g := range cs {
					if x.carriers[g] && !x.carriers[fn] {
						x.carriers[fn] = true
						changed = true
					}
				}
			})
		}
	}
	return x
}

// run executes fn; the call at fail reports an error, all others succeed.
// found receives every call that may fail.
func (x *faults) run(fn *ssa.Function, count int, fail ssa.Instruction, found func(ssa.Instruction, string)) (*Interp, []Path) {
	p := x.c.P
	in := NewInterp(p)
	in.ConvFork = false
	in.MaxPaths = 4000
	in.MaxSteps = 600000
	in.MaxFork = 2
	in.Inline = func(f *ssa.Function) bool {
		if !p.InRepo(f) {
			return false
		}
		if f.Parent() != nil || f.Synthetic != "" {
			return true
		}
		if returnsError(f.Signature) {
			return false
		}
		for _, prm := range f.Params {
			if isError(prm.Type()) {
				return true
			}
		}
		return x.carriers[f]
	}
	comp := x.c.componentDecode(fn, nil)
	in.Hook = func(k *Call) ([]Outcome, bool) {
		name := calleeName(k)
		if k.Callee != nil && (k.Callee.Parent() != nil || k.Callee.Synthetic != "" && len(k.Callee.Blocks) > 0) {
			return nil, false
		}
		if k.Callee == fn || !returnsError(k.Sig) || neverFails(k.Name) && !closesWriter(k.Instr) || k.Callee != nil && p.InRepo(k.Callee) && writesText(k.Sig) {
			if k.Callee == fn { // recursion
				return in.Results(k, "rec:"+name, k.Args), true
			}
			return nil, false
		}
		if k.Callee != nil && x.endings[k.Callee] {
			return nil, false
		}
		found(k.Instr, name)
		ok, handled := []Outcome(nil), false
		if isExtract(k) {
			x.splits = true
			ok, handled = []Outcome{{Res: tuple(wireElems(in, k.St, count, nil), &Nil{tError})}}, true
		} else {
			ok, handled = comp(k)
		}
		if !handled {
			k.St.fresh("n", tInt)
			ok = in.Results(k, k.St.fresh("ok:"+name, tInt).Key(), nil)
		}
		after := false
		for _, ev := range k.St.Events() {
			after = after || ev.Kind == "fault"
		}
		if after {
			k.St.emit("after", k.Instr.Pos(), deepAll(in, k.St, k.Args)...)
		}
		if k.Instr != fail || after {
			return ok, true
		}
		rs := k.Sig.Results()
		var res []Val
		for i := 0; i < rs.Len()-1; i++ {
			if isNillable(rs.At(i).Type()) && !strings.Contains(name, ".Read") {
				res = append(res, &Nil{rs.At(i).Type()})
			} else { // readers may return what they got so far
				res = append(res, k.St.fresh("none", rs.At(i).Type()))
			}
		}
		e := k.St.fresh("fault", tError)
		bad := Outcome{Res: tuple(append(res, e)...), Do: func(s *State) bool {
			nonNilTerm(s, e)
			s.emit("fault", k.Instr.Pos(), deepAll(in, s, k.Args)...)
			return true
		}}
		return append(ok, bad), true
	}
	st := p.NewState()
	var args []Val
	sig := fn.Signature
	for i, prm := range fn.Params {
		if i == 0 && sig.Recv() != nil {
			if n := namedOf(prm.Type()); n != nil {
				if _, isPtr := prm.Type().(*types.Pointer); isPtr {
					r := symRecv(st, n, "recv")
					if fn.Name() == "UnmarshalHBCI" {
						st.syms[r.key] = st.alloc(zero(n))
					}
					args = append(args, r)
					continue
				}
			}
		}
		t := sym("arg:"+prm.Name(), prm.Type())
		if isNillable(prm.Type()) {
			nonNilTerm(st, t)
		}
		args = append(args, t)
	}
	if len(fn.FreeVars) > 0 {
		cl := &Closure{Fn: fn}
		for _, fv := range fn.FreeVars {
			t := sym("free:"+fv.Name(), fv.Type())
			if isNillable(fv.Type()) {
				nonNilTerm(st, t)
			}
			cl.Bind = append(cl.Bind, t)
		}
		return in, in.RunClosure(st, cl, args...)
	}
	return in, in.Run(st, fn, args...)
}

func checkP12(c *Ctx) {
	c.Rule("propagation", "in every library function that reports an error: when a call it makes (directly or in a helper that reports no error) fails and everything else succeeds, the function returns a non-nil error", 250)
	x := newFaults(c)
	var fns []*ssa.Function
	for _, fn := range c.P.AllFuncs() {
		if libraryPkg(fn) && pkgRel(fn) != "domain" && !strings.Contains(fn.String(), "Mock") && len(fn.Blocks) > 0 && fn.Synthetic == "" && returnsError(fn.Signature) && !x.endings[fn] && !writesText(fn.Signature) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		x.propagation(fn)
	}
}

func (x *faults) propagation(fn *ssa.Function) {
	c := x.c
	type site struct {
		instr ssa.Instruction
		name  string
		count int
	}
	var order []*site
	seen := map[ssa.Instruction]*site{}
	static := 0
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if ci, ok := i.(ssa.CallInstruction); ok && returnsError(ci.Common().Signature()) {
				static++
			}
		}
	}
	add := func(count int) func(ssa.Instruction, string) {
		return func(i ssa.Instruction, name string) {
			if seen[i] == nil {
				s := &site{i, name, count}
				seen[i] = s
				order = append(order, s)
			}
		}
	}
	x.splits = false
	for _, n := range []int{30, 12, 8, 6, 5, 4, 3, 2, 1} {
		before := len(seen)
		in, _ := x.run(fn, n, nil, add(n))
		c.use(in)
		if len(seen) >= static || n < 30 && len(seen) == before && len(seen) > 0 && n < 2 {
			break
		}
		if !x.splits {
			break
		}
	}
	name := strings.ReplaceAll(fn.String(), modPath+"/", "")
	num := map[string]int{}
	for i := 0; i < len(order) && i < 200; i++ {
		s := order[i]
		in, ps := x.run(fn, s.count, s.instr, add(s.count))
		c.use(in)
		num[s.name]++
		construct := fmt.Sprintf("%s, failing %s #%d", name, s.name, num[s.name])
		failed, good, bad := 0, true, token.NoPos
		for _, p := range ps {
			var at token.Pos
			hit := false
			for _, e := range p.St.Events() {
				if e.Kind == "fault" {
					hit, at = true, e.Pos
				}
			}
			if !hit || p.Kind != "return" && p.Kind != "panic" {
				continue
			}
			failed++
			if s.name == "time.Parse" && otherReading(p.St) || strings.HasPrefix(s.name, "strconv.") && readAgain(p.St) {
				continue
			}
			if strings.HasPrefix(p.Where, "panic at") { // a documented panic; it hides nothing
				continue
			}
			e := errOf(p)
			if p.Kind == "panic" || e == nil || p.St.nilness(e) != 2 {
				good = false
				bad = at
			}
		}
		if failed == 0 {
			if in.Exhausted {
				c.Undecided("propagation", construct, "too many paths")
			}
			continue
		}
		pos := s.instr.Pos()
		if bad.IsValid() {
			pos = bad
		}
		c.Check("propagation", construct, good, c.P.Pos(pos), "the error of "+s.name+" does not make "+name+" fail")
	}
}

// otherReading tells whether the path established, by looking at the text,
// that it denotes a day the calendar does not have; banks use such days and
// there is a second way of reading them.
func otherReading(st *State) bool {
	found := false
	st.conds(func(t *Term, b bool) {
		if !b {
			return
		}
		walk(t, func(v Val) bool {
			if s, ok := asStr(v); ok && (strings.HasSuffix(s, "29") || strings.HasSuffix(s, "30")) {
				found = true
			}
			return !found
		})
	})
	return found
}

// readAgain tells whether the text that could not be read is part of a text
// that a later step of the path reads, and whose failure counts.
func readAgain(st *State) bool {
	parts := map[string]bool{}
	for _, e := range st.Events() {
		for _, a := range e.Args {
			switch e.Kind {
			case "fault":
				walk(a, func(v Val) bool {
					if t := valType(v); t != nil && isByteSlice(t) {
						parts[v.Key()] = true
					}
					return true
				})
			case "after":
				if parts[a.Key()] {
					return true
				}
			}
		}
	}
	return false
}
