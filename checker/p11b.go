package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// splits finds out how many elements a successful splitter hands out at least,
// given tokens as the tokenizer produces them: a value is always followed by a
// delimiter (decided for P28), the end of the stream comes last.
func (k *crashCheck) splits() {
	c := k.c
	kinds := map[string]Val{}
	T := c.P.TypeNamed("token", "Type")
	for n, m := range c.P.Pkg("token").Members {
		if x, ok := m.(*ssa.NamedConst); ok && types.Identical(x.Type(), T) {
			kinds[n] = &Const{x.Value.Value, T}
		}
	}
	delims := []string{"DATA_ELEMENT_SEPARATOR", "SEGMENT_END_MARKER", "GROUP_DATA_ELEMENT_SEPARATOR"}
	least := map[string]int{}
	for _, fn := range k.p.AllFuncs() {
		if fn.Signature.Recv() != nil || !isSplitter(fn.Signature) || len(fn.Blocks) == 0 || fn.Synthetic != "" || fn.Parent() != nil {
			continue
		}
		rel := pkgRel(fn)
		if rel != "element" && rel != "segment" {
			continue
		}
		if _, ok := least[rel]; !ok {
			least[rel] = 1
		}
		name := rel + "." + fn.Name()
		short, trunc, unread := "", false, false
		// streams of up to two delimiters, each with or without a value before it
		var streams [][]string
		streams = append(streams, nil)
		for n := 0; n < 2; n++ {
			for _, s := range append([][]string(nil), streams...) {
				if len(s) > 0 && n == 0 {
					continue
				}
				for _, d := range delims {
					streams = append(streams, append(append([]string(nil), s...), d), append(append([]string(nil), s...), "ALPHA_NUMERIC", d))
				}
			}
		}
		for _, toks := range streams {
			in := NewInterp(k.p)
			in.ConvFork = false
			in.MaxVisit = 8
			fed := ""
			in.Hook = func(call *Call) ([]Outcome, bool) {
				st := call.St
				m := ""
				if call.Callee != nil && pkgRel(call.Callee) == "token" {
					m = call.Callee.Name()
				} else if call.Method != nil && strings.Contains(call.Name, "token.") {
					m = call.Method.Name()
				}
				switch m {
				case "NewLexer":
					fed = "?"
					for _, a := range call.Args {
						if !isByteSlice(valType(a)) {
							continue
						}
						fed = ""
						if x, ok := call.In.bytesTerm(st, a).(*Term); ok && x.Op == "cat" && len(x.A) > 0 {
							if e, ok := constBytes(x.A[len(x.A)-1]); ok {
								fed = e
							}
						}
					}
					r := st.fresh("lexer", call.Sig.Results().At(0).Type())
					return []Outcome{{Res: r, Do: func(s *State) bool { nonNilTerm(s, r); return true }}}, true
				case "HasNext":
					return []Outcome{{Res: cBool(noteInt(st, "token") <= len(toks))}}, true
				case "Next":
					i := noteInt(st, "token")
					if i > len(toks) {
						return []Outcome{{Panic: "no token left"}}, true
					}
					r := sym(fmt.Sprintf("token%d", i), call.Sig.Results().At(0).Type())
					return []Outcome{{Res: r, Do: func(s *State) bool { bump(s, "token"); nonNilTerm(s, r); return true }}}, true
				}
				r, ok := call.Recv.(*Term)
				if !ok || !strings.HasPrefix(r.key, "token") {
					return nil, false
				}
				var i int
				fmt.Sscanf(r.key, "token%d", &i)
				kind := "EOF"
				if i < len(toks) {
					kind = toks[i]
				}
				switch m {
				case "Type":
					return []Outcome{{Res: kinds[kind]}}, true
				case "IsSyntaxSymbol":
					return []Outcome{{Res: cBool(kind != "EOF" && kind != "ALPHA_NUMERIC")}}, true
				case "Value":
					v := mk("value of", tBytes, r)
					lo, hi := int64(1), int64(1)
					if kind == "EOF" {
						lo, hi = 0, 0
					} else if kind == "ALPHA_NUMERIC" {
						hi = 1 << 40
					}
					return []Outcome{{Res: v, Do: func(s *State) bool { return s.setIv(mk("len", tInt, v), lo, hi) }}}, true
				}
				return nil, false
			}
			st := k.p.NewState()
			st.frames = nil
			raw := sym("raw", tBytes)
			ps := in.Run(st, fn, raw)
			c.use(in)
			if fed == "?" {
				unread = true
				continue
			}
			if fed != "" {
				// the input itself ends with these bytes
				want := map[string]string{"+": "DATA_ELEMENT_SEPARATOR", "'": "SEGMENT_END_MARKER", ":": "GROUP_DATA_ELEMENT_SEPARATOR"}[fed[len(fed)-1:]]
				if len(toks) == 0 || want != "" && toks[len(toks)-1] != want {
					continue
				}
			}
			for _, q := range ps {
				switch {
				case q.Kind == "trunc":
					trunc = true
				case q.Kind == "return" && q.success():
					lo, _ := q.St.interval(lenOf(q.St.resolve(q.Res[0])))
					if l, ok := in.parts(q.St, q.Res[0]); ok {
						lo = 0
						for _, e := range l {
							if !e.Spread {
								lo++
							}
						}
					}
					if lo < 1 {
						short = fmt.Sprintf("no element comes out of the tokens %v", toks)
					}
				}
			}
		}
		if trunc || unread {
			c.Undecided("split", name, "not followed to its end")
			continue
		}
		c.Check("split", name, short == "", k.p.Pos(fn.Pos()), "%s, and no failure is reported", short)
		if short != "" {
			least[rel] = 0
		}
	}
	for rel, n := range least {
		k.least[rel] = n
	}
}

// lexing takes over what the exploration of the tokenizers finds.
func (k *crashCheck) lexing() {
	c := k.c
	sub := newCtx(c.P, c.ID, c.Tier)
	sub.Rule("bounds", "", 0)
	for _, l := range sub.lexers() {
		l.explore()
	}
	for f := range sub.Funcs {
		c.Funcs[f] = true
	}
	for _, o := range sub.Obs {
		if o.Rule == "bounds" {
			c.Check("bounds", strings.TrimPrefix(o.Key, "bounds|"), o.OK, o.Where, "%s", o.Detail)
		}
	}
}

// consumers runs the code that reads the bank's messages on any segments the
// registry can have decoded.
func (k *crashCheck) consumers() {
	c := k.c
	d := &reg{c: c}
	d.universe()
	k.reg = map[string][]*types.Named{}
	for _, key := range d.keys {
		if n, _, ok := d.lookup(key); ok && n != nil {
			k.decoders0 = append(k.decoders0, n)
			k.reg[key.id] = append(k.reg[key.id], n)
		}
	}
	var fns []*ssa.Function
	for _, fn := range k.p.AllFuncs() {
		switch pkgRel(fn) {
		case "message", "dialog", "client":
		default:
			continue
		}
		if _, callers := k.p.callGraph(); !k.isEntry(fn) && fn.Parent() == nil && len(callers[fn]) == 0 && !k.implements(fn) {
			continue // never called
		}
		if fn.Synthetic != "" || len(fn.Blocks) == 0 || k.isTestDouble(fn) || len(k.siteInstrs(fn)) == 0 {
			continue
		}
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		f, trunc := k.consume(fn, fn, map[ssa.Instruction]bool{}, 0, false)
		name := pkgRel(fn) + "." + strings.TrimPrefix(fn.RelString(fn.Pkg.Pkg), "")
		if trunc {
			c.note("consumer|%s: not followed to its end", name)
		}
		c.Check("consumer", name, len(f.order) == 0, k.p.Pos(fn.Pos()), "can fail at run time on what the bank sent: %s", f)
	}
}

// isTestDouble: code that only serves tests.
func (k *crashCheck) isTestDouble(fn *ssa.Function) bool {
	p := k.p.Pos(fn.Pos())
	return strings.Contains(p, "/mock_") || strings.HasPrefix(p, "mock_") || strings.Contains(p, "_test.go")
}

// siteInstrs: the instructions of a function that can fail on a wrong value.
func (k *crashCheck) siteInstrs(fn *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.TypeAssert:
				if !x.CommaOk {
					out = append(out, i)
				}
			case *ssa.IndexAddr:
				if _, isA := under(x.X.Type()).(*types.Pointer); !isA && x.Pos().IsValid() {
					out = append(out, i)
				}
			case *ssa.Index, *ssa.Slice, *ssa.Panic:
				if i.Pos().IsValid() {
					out = append(out, i)
				}
			case *ssa.Lookup:
				if isString(x.X.Type()) {
					out = append(out, i)
				}
			}
		}
	}
	return out
}

// consume runs root and reports the sites in fn that can fail. A site that
// fails for some argument is looked at from the callers.
func (k *crashCheck) consume(fn, root *ssa.Function, only map[ssa.Instruction]bool, depth int, narrow bool) (*crashSites, bool) {
	c := k.c
	type hit struct {
		instr ssa.Instruction
		desc  string
		given bool // by an argument
	}
	var hits []hit
	seen := map[ssa.Instruction]bool{}
	in := k.interp(&crashSites{})
	in.MaxPaths = 4000
	in.MaxVisit = 4
	in.OnSite = func(st *State, s Site) {
		if s.Fn != fn || seen[s.Instr] || len(only) > 0 && !only[s.Instr] {
			return
		}
		switch s.Kind {
		case "nilderef":
			t, ok := s.V.(*Term)
			if !ok {
				return
			}
			n, _ := k.fieldTerm(t)
			if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modPath+"/segment") && !strings.HasPrefix(n.Obj().Pkg().Path(), modPath+"/element") || !mentionsOp(t, "received:") {
				return
			}
		case "panic":
			if _, isP := s.Instr.(*ssa.Panic); !isP || noteInt(st, "received") == 0 {
				return
			}
		}
		if k.justified(st, s) || k.received(s) || k.filled(st, s) {
			return
		}
		seen[s.Instr] = true
		given := s.V == nil || s.Kind == "panic"
		if s.V != nil {
			walk(s.V, func(v Val) bool {
				if t, ok := v.(*Term); ok && strings.HasPrefix(t.key, "arg:") {
					given = true
				}
				return true
			})
		}
		hits = append(hits, hit{s.Instr, s.Desc, given})
	}
	in.Hook = func(call *Call) ([]Outcome, bool) {
		if r, ok := k.consumeHook(call, root); ok {
			return r, true
		}
		if narrow && call.Callee != nil && call.Callee != root && k.p.InRepo(call.Callee) && !k.reaches(call.Callee, fn) {
			return k.opaque(call)
		}
		return nil, false
	}
	st := k.p.NewState()
	st.frames = nil
	args := symArgs(st, root)
	for _, a := range args {
		if isNillable(valType(a)) && !isByteSlice(valType(a)) {
			if t, ok := a.(*Term); ok {
				nonNilTerm(st, t)
			}
		}
	}
	ps := in.Run(st, root, args...)
	c.use(in)
	f := &crashSites{cut: in.Total > in.MaxPaths}
	trunc := in.Truncated > 0 || f.ends0(ps)
	if len(hits) == 0 {
		return f, trunc
	}
	left, sure := map[ssa.Instruction]bool{}, map[ssa.Instruction]bool{}
	for _, h := range hits {
		if h.given {
			left[h.instr] = true
		} else {
			sure[h.instr] = true
		}
	}
	// do all callers rule it out?
	if depth < 3 && !k.isEntry(root) && len(left) > 0 {
		_, callers := k.p.callGraph()
		cs := callers[root]
		if len(cs) > 0 {
			still := map[ssa.Instruction]bool{}
			for _, call := range cs {
				p := call.Parent()
				if k.isTestDouble(p) {
					continue
				}
				// first only with what leads to the function, then with all helpers
				g, tr := k.consume(fn, p, left, depth+1, true)
				if g.cut || len(g.instrs) > 0 {
					g, tr = k.consume(fn, p, left, depth+1, false)
				}
				trunc = trunc || tr
				for _, w := range g.instrs {
					still[w] = true
				}
				if g.cut {
					still = left
				}
			}
			left = still
		}
	}
	for _, h := range hits {
		if left[h.instr] || sure[h.instr] {
			f.instrs = append(f.instrs, h.instr)
			f.add(k.p.Pos(h.instr.Pos()), h.desc)
		}
	}
	return f, trunc
}

func (f *crashSites) ends0(ps []Path) bool {
	for _, q := range ps {
		if q.Kind == "trunc" {
			return true
		}
	}
	return false
}

// reaches: does a function call another one, directly or through others?
func (k *crashCheck) reaches(f, g *ssa.Function) bool {
	_, callers := k.p.callGraph()
	seen := map[*ssa.Function]bool{g: true}
	work := []*ssa.Function{g}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		if x == f {
			return true
		}
		for _, c := range callers[x] {
			if p := c.Parent(); !seen[p] {
				seen[p] = true
				work = append(work, p)
			}
		}
	}
	return false
}

// isEntry: can a function be called from outside?
func (k *crashCheck) isEntry(fn *ssa.Function) bool {
	if fn.Object() == nil || !fn.Object().Exported() {
		return false
	}
	n := recvNamed(fn)
	return n == nil || n.Obj().Exported()
}

// implements: can a method be called through an interface?
func (k *crashCheck) implements(fn *ssa.Function) bool {
	return recvNamed(fn) != nil && fn.Object() != nil && fn.Object().Exported()
}

// received: is an assertion about a segment satisfied by everything the registry decodes?
func (k *crashCheck) received(s Site) bool {
	t, ok := s.V.(*Term)
	if !ok || s.Kind != "typeassert?" || !strings.HasPrefix(t.Op, "sym:decoder") && !strings.HasPrefix(t.key, "decoder") {
		return false
	}
	i, ok := under(s.T).(*types.Interface)
	if !ok || len(k.decoders0) == 0 {
		return false
	}
	for _, n := range k.decoders0 {
		if !types.Implements(types.NewPointer(n), i) {
			return false
		}
	}
	return true
}

func (k *crashCheck) consumeHook(call *Call, root *ssa.Function) ([]Outcome, bool) {
	st := call.St
	if call.Callee == root && call.Callee != nil {
		return nil, false
	}
	failed := func(res func(e Val) Val) Outcome {
		e := st.fresh("broken", tError)
		return Outcome{Res: res(e), Do: func(s *State) bool { nonNilTerm(s, e); return true }}
	}
	sig := call.Sig
	if isExtract(call) {
		r := st.fresh("elements", types.NewSlice(tBytes))
		return []Outcome{{Res: tuple(r, &Nil{tError}), Do: func(s *State) bool {
			nonNilTerm(s, r)
			return s.setIv(mk("len", tInt, r), int64(k.least[pkgRel(call.Callee)]), 1<<40)
		}}, failed(func(e Val) Val { return tuple(&Nil{types.NewSlice(tBytes)}, e) })}, true
	}
	if call.Callee != nil && isDecoder(call.Callee) || call.Method != nil && call.Method.Name() == "UnmarshalHBCI" {
		if call.Callee != nil {
			if p, ok := st.resolve(call.Args[0]).(*Ptr); ok {
				n := recvNamed(call.Callee)
				dec := st.fresh("received:"+n.Obj().Name(), n)
				return []Outcome{{Res: &Nil{tError}, Do: func(s *State) bool {
					if nv, ok := setPath(s.get(p.Obj), p.Path, dec); ok {
						s.set(p.Obj, nv)
					}
					return true
				}}, failed(func(e Val) Val { return e })}, true
			}
		}
		return []Outcome{{Res: &Nil{tError}}, failed(func(e Val) Val { return e })}, true
	}
	segT := k.p.TypeNamed("segment", "Segment")
	if sig.Results().Len() == 2 && call.Callee != nil && pkgRel(call.Callee) == "segment" && k.givesDecoder(sig) {
		r := st.fresh("decoder", sig.Results().At(0).Type())
		return []Outcome{{Res: tuple(r, &Nil{tError}), Do: func(s *State) bool { nonNilTerm(s, r); return true }}, failed(func(e Val) Val { return tuple(&Nil{sig.Results().At(0).Type()}, e) })}, true
	}
	// segments by identifier
	params := sig.Params().Len()
	if params == 1 && sig.Results().Len() == 1 && isString(sig.Params().At(0).Type()) && len(call.Args) > 0 {
		one := types.Identical(sig.Results().At(0).Type(), segT)
		many := types.Identical(sig.Results().At(0).Type(), types.NewSlice(segT))
		if one || many {
			id, ok := asStr(st.resolve(call.Args[len(call.Args)-1]))
			if !ok {
				if one {
					r := st.fresh("received:any", segT)
					return []Outcome{{Res: r}}, true
				}
				return nil, false
			}
			var out []Outcome
			var all []Part
			got := func(s *State) bool { bump(s, "received"); return true }
			for _, n := range k.reg[id] {
				v := k.receivedSegment(st, n)
				all = append(all, Part{V: v})
				out = append(out, Outcome{Res: v, Do: got})
			}
			if one {
				return append(out, Outcome{Res: &Nil{segT}}), true
			}
			return []Outcome{{Res: &Nil{types.NewSlice(segT)}}, {Res: call.In.newSlice(st, types.NewSlice(segT), all), Do: got}}, true
		}
	}
	if call.Callee == nil || !k.p.InRepo(call.Callee) {
		return nil, false
	}
	// what decoded values do is judged on its own; other parts are not looked at
	switch rel := pkgRel(call.Callee); rel {
	case "segment":
		return k.opaque(call)
	case "element":
		if call.Callee.Name() != "GroupDataElements" && !strings.HasPrefix(call.Callee.Name(), "Group") {
			return k.opaque(call)
		}
	default:
		if rel != pkgRel(root) {
			return k.opaque(call)
		}
	}
	return nil, false
}

// givesDecoder: does a function hand out a decoder and an error?
func (k *crashCheck) givesDecoder(s *types.Signature) bool {
	i, ok := under(s.Results().At(0).Type()).(*types.Interface)
	if !ok || !isError(s.Results().At(1).Type()) {
		return false
	}
	for j := 0; j < i.NumMethods(); j++ {
		if i.Method(j).Name() == "UnmarshalHBCI" {
			return true
		}
	}
	return false
}

// receivedSegment is any segment of a type that was decoded.
func (k *crashCheck) receivedSegment(st *State, n *types.Named) Val {
	dec := st.fresh("received:"+n.Obj().Name(), n)
	return &Iface{Dyn: types.NewPointer(n), V: &Ptr{Obj: st.alloc(dec)}}
}

// opaque: a call whose result can be anything, but no nil pointer without failure.
func (k *crashCheck) opaque(call *Call) ([]Outcome, bool) {
	st := call.St
	rs := call.Sig.Results()
	if rs.Len() == 0 {
		return []Outcome{{}}, true
	}
	var vs []Val
	for i := 0; i < rs.Len(); i++ {
		vs = append(vs, st.fresh("result:"+call.Callee.Name(), rs.At(i).Type()))
	}
	ok := func(s *State) bool {
		for _, v := range vs {
			t := v.(*Term)
			switch under(t.T).(type) {
			case *types.Pointer, *types.Interface:
				if !isError(t.T) {
					nonNilTerm(s, t)
				}
			}
		}
		return true
	}
	if rs.Len() == 1 {
		return []Outcome{{Res: vs[0], Do: ok}}, true
	}
	return []Outcome{{Res: tuple(vs...), Do: ok}}, true
}

// filled: is the first entry of a list taken from a map whose lists all have one?
func (k *crashCheck) filled(st *State, s Site) bool {
	t, ok := s.V.(*Term)
	if !ok || s.Kind != "index?" || t.Op != "index" || len(t.A) != 2 {
		return false
	}
	i, isC := asInt(t.A[0])
	n, isT := t.A[1].(*Term)
	if !isC || i != 0 || !isT || n.Op != "len" || len(n.A) != 1 {
		return false
	}
	l, isT := n.A[0].(*Term)
	if !isT || l.Op != "lookup" || len(l.A) != 2 {
		return false
	}
	if b, known := st.truth(mk("has", tBool, l.A[0], l.A[1])); !known || !b {
		return false
	}
	m, ok := under(valType(l.A[0])).(*types.Map)
	if !ok {
		return false
	}
	found := false
	for _, fn := range k.p.AllFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.MapUpdate)
				if !ok || !types.Identical(under(u.Map.Type()), m) {
					continue
				}
				found = true
				if !hasEntry(u.Value, map[ssa.Value]bool{}) {
					return false
				}
			}
		}
	}
	return found
}

// hasEntry: is a list made by appending at least one entry?
func hasEntry(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !hasEntry(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Slice:
		return x.Low == nil && x.High == nil && arrayLen(x.X.Type()) > 0
	case *ssa.Call:
		b, ok := x.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "append" || len(x.Call.Args) != 2 {
			return false
		}
		return hasEntry(x.Call.Args[1], seen) || hasEntry(x.Call.Args[0], seen)
	}
	return false
}

func arrayLen(t types.Type) int64 {
	p, ok := under(t).(*types.Pointer)
	if !ok {
		return 0
	}
	a, ok := under(p.Elem()).(*types.Array)
	if !ok {
		return 0
	}
	return a.Len()
}
