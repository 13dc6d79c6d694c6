package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// setParts replaces the elements a slice refers to.
func setParts(st *State, sl *Slice, ps []Part) bool {
	switch s := st.get(sl.Obj).(type) {
	case *Seq:
		n := append([]Part(nil), s.P...)
		for i, p := range ps {
			if sl.Lo+i >= len(n) {
				return false
			}
			n[sl.Lo+i] = p
		}
		st.set(sl.Obj, &Seq{P: n})
		return true
	case *Struct:
		n := &Struct{T: s.T, F: append([]Val(nil), s.F...)}
		for i, p := range ps {
			if sl.Lo+i >= len(n.F) {
				return false
			}
			n.F[sl.Lo+i] = p.V
		}
		st.set(sl.Obj, n)
		return true
	}
	return false
}

// nested evaluates a call for its result only; it must have a single outcome.
func (in *Interp) nested(st *State, fv Val, fn *ssa.Function, args ...Val) (Val, bool) {
	s := st.snapshot()
	s.frames = nil
	n := NewInterp(in.P)
	n.Hook = in.Hook
	n.ConvFork = false
	n.MaxFork = in.MaxFork
	var ps []Path
	if cl, ok := st.resolve(fv).(*Closure); ok && fn == nil && len(cl.Fn.Blocks) > 0 {
		ps = n.RunClosure(s, cl, args...)
	} else if fn != nil && len(fn.Blocks) > 0 {
		ps = n.Run(s, fn, args...)
	}
	var out Val
	for _, p := range ps {
		if p.Kind != "return" || len(p.Res) != 1 {
			return nil, false
		}
		v := p.St.resolve(p.Res[0])
		if out != nil && out.Key() != v.Key() {
			return nil, false
		}
		out = v
	}
	return out, out != nil
}

// natural compares two constants.
func (in *Interp) natural(st *State, a, b Val) (bool, bool) {
	if x, ok := asStr(st.resolve(a)); ok {
		if y, ok := asStr(st.resolve(b)); ok {
			return x < y, true
		}
	}
	return st.compare(token.LSS, st.resolve(a), st.resolve(b))
}

// sortModel gives the effect of the sorting functions of the standard library.
func (in *Interp) sortModel(c *Call) ([]Outcome, bool) {
	st := c.St
	arg := func(i int) Val { return st.resolve(c.Args[i]) }
	if c.Name == "sort.Reverse" {
		if c.Callee != nil && c.Callee.Pkg != nil {
			if o := c.Callee.Pkg.Pkg.Scope().Lookup("reverse"); o != nil {
				return []Outcome{{Res: &Iface{Dyn: types.NewPointer(o.Type()), V: arg(0)}}}, true
			}
		}
		return nil, false
	}
	var target Val
	var less func(s *State, ps []Part, i, j int) (bool, bool)
	byVal := func(s *State, ps []Part, i, j int) (bool, bool) { return in.natural(s, ps[i].V, ps[j].V) }
	switch c.Name {
	case "sort.Ints", "sort.Strings", "sort.Float64s", "slices.Sort":
		target, less = arg(0), byVal
	case "slices.SortFunc", "slices.SortStableFunc":
		target = arg(0)
		less = func(s *State, ps []Part, i, j int) (bool, bool) {
			v, ok := in.nested(s, c.Args[1], nil, ps[i].V, ps[j].V)
			if !ok {
				return false, false
			}
			return s.compare(token.LSS, v, cInt(0))
		}
	case "sort.Slice", "sort.SliceStable":
		target = arg(0)
		if i, ok := target.(*Iface); ok {
			target = st.resolve(i.V)
		}
		less = func(s *State, ps []Part, i, j int) (bool, bool) {
			sl, ok := target.(*Slice)
			if !ok {
				return false, false
			}
			s2 := s.snapshot()
			if !setParts(s2, sl, ps) {
				return false, false
			}
			v, ok := in.nested(s2, c.Args[1], nil, cInt(int64(i)), cInt(int64(j)))
			if !ok {
				return false, false
			}
			return s2.truth(v)
		}
	case "sort.Sort", "sort.Stable":
		rev := false
		target = arg(0)
		var dyn types.Type
		for {
			i, ok := target.(*Iface)
			if !ok {
				break
			}
			if p, ok := i.Dyn.(*types.Pointer); ok {
				if n, ok := p.Elem().(*types.Named); ok && n.Obj().Name() == "reverse" && n.Obj().Pkg().Path() == "sort" {
					rev = !rev
					target = st.resolve(i.V)
					continue
				}
			}
			dyn = i.Dyn
			target = st.resolve(i.V)
			break
		}
		n := namedOf(orInvalid(dyn))
		switch {
		case n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sort":
			less = byVal
		case dyn != nil:
			fn := in.P.MethodOpt(dyn, "Less")
			less = func(s *State, ps []Part, i, j int) (bool, bool) {
				sl, ok := target.(*Slice)
				if !ok {
					return false, false
				}
				s2 := s.snapshot()
				if !setParts(s2, sl, ps) {
					return false, false
				}
				v, ok := in.nested(s2, &Nil{tError}, fn, target, cInt(int64(i)), cInt(int64(j)))
				if !ok {
					return false, false
				}
				return s2.truth(v)
			}
		}
		if rev && less != nil {
			l := less
			less = func(s *State, ps []Part, i, j int) (bool, bool) { return l(s, ps, j, i) }
		}
	case "slices.Reverse":
		if sl, ok := arg(0).(*Slice); ok {
			if ps, ok := in.parts(st, sl); ok && !spread(ps) {
				n := make([]Part, len(ps))
				for i := range ps {
					n[len(ps)-1-i] = ps[i]
				}
				setParts(st, sl, n)
				return []Outcome{{Res: &Tuple{}}}, true
			}
		}
		return nil, false
	case "slices.Max", "slices.Min":
		ps, ok := in.parts(st, arg(0))
		if !ok || spread(ps) || len(ps) == 0 {
			return nil, false
		}
		best := ps[0].V
		for _, p := range ps[1:] {
			lt, ok := in.natural(st, best, p.V)
			if !ok {
				return nil, false
			}
			gt, _ := in.natural(st, p.V, best)
			if c.Name == "slices.Max" && lt || c.Name == "slices.Min" && gt {
				best = p.V
			}
		}
		return []Outcome{{Res: best}}, true
	case "slices.Contains", "slices.Index":
		ps, ok := in.parts(st, arg(0))
		if !ok || spread(ps) {
			return nil, false
		}
		res := func(at int) Val {
			if c.Name == "slices.Index" {
				return cInt(int64(at))
			}
			return cBool(at >= 0)
		}
		var eqs []Val
		var out []Outcome
		for i, p := range ps {
			eq := in.eqTerm(st, st.resolve(p.V), arg(1))
			before := append([]Val(nil), eqs...)
			is, known := st.truth(eq)
			if known && !is {
				continue
			}
			out = append(out, Outcome{Res: res(i), Do: func(s *State) bool {
				for _, b := range before {
					if !s.assume(b, false) {
						return false
					}
				}
				return s.assume(eq, true)
			}})
			if known {
				return out, true
			}
			eqs = append(eqs, eq)
		}
		return append(out, Outcome{Res: res(-1), Do: func(s *State) bool {
			for _, b := range eqs {
				if !s.assume(b, false) {
					return false
				}
			}
			return true
		}}), true
	case "sort.SearchInts", "sort.SearchStrings":
		ps, ok := in.parts(st, arg(0))
		if !ok || spread(ps) {
			return nil, false
		}
		i, j := 0, len(ps)
		for i < j {
			h := (i + j) / 2
			lt, ok := in.natural(st, ps[h].V, arg(1))
			if !ok {
				return nil, false
			}
			if lt {
				i = h + 1
			} else {
				j = h
			}
		}
		return []Outcome{{Res: cInt(int64(i))}}, true
	default:
		return nil, false
	}
	sl, ok := target.(*Slice)
	if !ok {
		if _, isNil := target.(*Nil); isNil {
			return []Outcome{{Res: &Tuple{}}}, true
		}
		in.havoc(c)
		return []Outcome{{Res: &Tuple{}}}, true
	}
	ps, ok := in.parts(st, sl)
	good := ok && !spread(ps) && less != nil
	var cur []Part
	if good {
		cur = append([]Part(nil), ps...)
		for i := 1; i < len(cur) && good; i++ {
			for j := i; j > 0; j-- {
				lt, ok := less(st, cur, j, j-1)
				if !ok {
					good = false
					break
				}
				if !lt {
					break
				}
				cur[j], cur[j-1] = cur[j-1], cur[j]
			}
		}
	}
	if good {
		good = setParts(st, sl, cur)
	}
	if !good {
		if len(ps) <= 1 && ok && !spread(ps) {
			return []Outcome{{Res: &Tuple{}}}, true
		}
		// some permutation of the elements
		all := in.deep(st, sl)
		var n []Part
		et := under(sl.T).(*types.Slice).Elem()
		for i, p := range ps {
			if p.Spread {
				n = append(n, Part{V: mk("sorted", sl.T, all), Spread: true})
				break
			}
			n = append(n, Part{V: mk("sorted", et, all, cInt(int64(i)))})
		}
		if len(ps) == len(n) {
			setParts(st, sl, n)
		} else {
			st.set(sl.Obj, &Seq{P: n})
		}
	}
	return []Outcome{{Res: &Tuple{}}}, true
}

func spread(ps []Part) bool {
	for _, p := range ps {
		if p.Spread {
			return true
		}
	}
	return false
}

func isSortCall(n string) bool {
	return strings.HasPrefix(n, "sort.") || strings.HasPrefix(n, "slices.")
}
