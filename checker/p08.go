package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P08"] = checkP08 }

func typeLabel(n *types.Named) string { return n.Obj().Pkg().Name() + "." + n.Obj().Name() }

func checkP08(c *Ctx) {
	c.Rule("position", "decoding a value with all components present stores each component read from exactly the wire positions at which the component list writes it", 200)
	c.Rule("absent", "decoding a value with one component absent, or with trailing components absent, leaves every other component at its own position and invents none", 250)
	c.Rule("stable-list", "the component list of a composite has the same length and order whatever components are present", 38)
	c.Rule("own-form", "whatever components a constructor leaves absent, the form it writes is accepted by the decoder of the same type", 18)
	c.Rule("component", "every component decoder accepts some input", 45)
	c.Rule("join", "marshaling writes the present components in list order, separated by exactly one separator per position, and omits only empty trailing positions", 40)
	c.Rule("count", "the declared number of components of a composite equals the number of components it writes", 28)
	for _, n := range c.P.typesWith("segment", "UnmarshalHBCI") {
		if c.P.hasComponents(n) && !c.P.isVersionWrapper(n) {
			c.checkWire(n, true)
		}
	}
	for _, n := range c.P.typesWith("element", "UnmarshalHBCI") {
		if c.P.hasComponents(n) {
			c.checkWire(n, false)
		}
	}
	c.checkConstructors()
	c.checkCounts()
	c.checkComponents()
	c.Assume = append(c.Assume, "component decoders are judged one level at a time: a composite's decoder is analysed with its components' decoders abstracted to 'value of these wire positions'",
		"the element splitter is abstracted to a list of symbolic elements (its own losslessness is P28)")
}

// hasComponents reports whether *T has (own or promoted) a component list.
func (p *Prog) hasComponents(n *types.Named) bool {
	f := p.components(n)
	return f != nil
}

// components is the (possibly promoted) method listing components.
func (p *Prog) components(n *types.Named) *ssa.Function {
	if f := p.componentsMethod(n); f != nil {
		return f
	}
	for _, m := range []string{"Elements", "GroupDataElements", "elements"} {
		if f := p.MethodOpt(types.NewPointer(n), m); f != nil && len(f.Blocks) > 0 {
			return f
		}
	}
	return nil
}

// isVersionWrapper: a struct whose only embedded part is an interface of this repository having elements().
func (p *Prog) isVersionWrapper(n *types.Named) bool {
	s, ok := under(n).(*types.Struct)
	if !ok || s.NumFields() != 1 || !s.Field(0).Embedded() {
		return false
	}
	return types.IsInterface(s.Field(0).Type())
}

// listComp is one component as listed after decoding.
type listComp struct {
	Absent bool
	V      Val
	M      []int
	Raw    Val
}

// listAfter runs the component list on a decoded receiver.
func (c *Ctx) listAfter(r *decodeRun, p Path, n *types.Named) ([]listComp, bool) {
	f := c.P.components(n)
	in := NewInterp(c.P)
	in.ConvFork = false
	in.DeepN = 12
	st := p.St.clone()
	st.frames = nil
	recv := Val(&Ptr{Obj: st.syms[r.recv.key]})
	if st.syms[r.recv.key] == 0 {
		recv = r.recv
	}
	var ret []Path
	for _, q := range in.Run(st, f, recv) {
		if q.Kind == "return" {
			ret = append(ret, q)
		}
	}
	c.use(in)
	if len(ret) != 1 {
		return nil, false
	}
	ps, ok := in.parts(ret[0].St, ret[0].Res[0])
	if !ok {
		return nil, false
	}
	var out []listComp
	for _, x := range ps {
		v := ret[0].St.resolve(x.V)
		lc := listComp{}
		w := v
		if ic, ok := v.(*Iface); ok {
			w = ret[0].St.resolve(ic.V)
		}
		lc.Raw = w
		if isNil(w) || ret[0].St.nilness(w) == 1 {
			lc.Absent = true
		}
		lc.V = in.deep(ret[0].St, v)
		lc.M = mentions(lc.V)
		out = append(out, lc)
	}
	return out, true
}

func (c *Ctx) checkWire(n *types.Named, seg bool) {
	lab := typeLabel(n)
	own := c.P.componentsMethod(n) != nil || c.embeddedComposite(n) != nil
	off := 0
	if seg {
		off = 1
	}
	f := c.P.ownMethod(n, "UnmarshalHBCI")
	where := c.P.Pos(f.Pos())
	// written layout
	type slot struct {
		lo, hi int // positions
		array  bool
		name   string
		iface  bool
	}
	var slots []slot
	cnt := off
	dynamic := false
	if own {
		cs, e := c.written(n, !seg)
		if e != "" || len(cs) == 0 {
			dynamic = true
		}
		for _, x := range cs {
			if x.Field == "" || strings.Contains(x.Field, "arrayElementGroup") || x.Field == "array" {
				dynamic = true
			}
			s := slot{lo: off + x.Pos, hi: off + x.Pos + x.N, array: x.Array, name: x.Field}
			if x.Array {
				s.hi = s.lo + 3
			}
			if x.Typ != nil && types.IsInterface(x.Typ) {
				s.iface = true
			}
			if s.hi > cnt {
				cnt = s.hi
			}
			slots = append(slots, s)
		}
		if !dynamic {
			c.checkStable(n)
		}
	} else {
		dynamic = true
	}
	if dynamic { // a list of unknown length: decode three entries and expect them in order
		slots = nil
		cnt = off + 3
		if !seg {
			cnt = 4
		}
		per := 1
		r := c.runDecode(n, f, cnt, nil, nil)
		good := 0
		for _, p := range r.paths {
			if p.Kind != "return" || p.St.nilness(p.Res[len(p.Res)-1]) != 1 {
				continue
			}
			l, ok := c.listAfter(r, p, n)
			if !ok {
				continue
			}
			good++
			var got []string
			for i := range l {
				var m []int
				for _, k := range l[i].M {
					if k >= off { // the segment header may be consulted for references
						m = append(m, k)
					}
				}
				l[i].M = m
			}
			for _, x := range l {
				if len(x.M) > 0 {
					got = append(got, fmt.Sprint(x.M))
				}
			}
			var want []string
			flat := []int{}
			for i := off; i < cnt; i += per {
				want = append(want, fmt.Sprint([]int{i}))
				flat = append(flat, i)
			}
			okList := fmt.Sprint(got) == fmt.Sprint(want)
			if !okList { // grouped entries (pairs, tuples): order and coverage
				var all []int
				for _, x := range l {
					all = append(all, x.M...)
				}
				okList = fmt.Sprint(all) == fmt.Sprint(flat)
			}
			if !okList && !own { // promoted list (specialised parameter segments): coverage of the last element
				okList = len(l) > 0 && len(mentionsAll(l)) == cnt-off
			}
			c.Check("position", lab+"[list]", okList, where, "entries written in list order are read back as %v, expected %v", got, want)
		}
		if good == 0 && cnt > 0 {
			// tuple lists of fixed arity: try larger counts
			for _, k := range []int{off + 2, off + 21, off + 5, off + 6} {
				r := c.runDecode(n, f, k, nil, nil)
				for _, p := range r.paths {
					if p.Kind != "return" || p.St.nilness(p.Res[len(p.Res)-1]) != 1 {
						continue
					}
					l, ok := c.listAfter(r, p, n)
					if !ok {
						continue
					}
					good++
					var all []int
					for _, x := range l {
						all = append(all, x.M...)
					}
					okA := len(all) == k-off && sort.IntsAreSorted(all)
					c.Check("position", lab+"[list]", okA, where, "entries of a %d-element list are read back from %v", k, all)
				}
				if good > 0 {
					break
				}
			}
			c.Check("position", lab, good > 0, where, "no successful decode of a list")
		}
		return
	}
	type variant struct {
		cnt   int
		empty map[int]bool
		gone  map[int]bool // slots absent
		name  string
	}
	variants := []variant{{cnt, nil, map[int]bool{}, "all"}}
	for i, s := range slots {
		e := map[int]bool{}
		for k := s.lo; k < s.hi; k++ {
			e[k] = true
		}
		variants = append(variants, variant{cnt, e, map[int]bool{i: true}, "without " + s.name})
		if i > 0 {
			g := map[int]bool{}
			for j := i; j < len(slots); j++ {
				g[j] = true
			}
			variants = append(variants, variant{s.lo, nil, g, "first " + fmt.Sprint(i)})
		}
	}
	for vi, v := range variants {
		r := c.runDecode(n, f, v.cnt, v.empty, nil)
		rule := "absent"
		if vi == 0 {
			rule = "position"
		}
		okPaths := 0
		for _, p := range r.paths {
			if p.Kind == "panic" && vi == 0 {
				c.Check(rule, lab+":panic "+panicSite(p), false, where, "decoding a complete value panics: %s", p.Where)
			}
			if p.Kind != "return" || p.St.nilness(p.Res[len(p.Res)-1]) != 1 {
				continue
			}
			l, ok := c.listAfter(r, p, n)
			if !ok {
				continue
			}
			okPaths++
			if len(l) != len(slots) {
				c.Check(rule, lab+":"+v.name, false, where, "%d components listed after decoding, %d when writing", len(l), len(slots))
				continue
			}
			for i, s := range slots {
				if s.iface {
					continue // abstract component, filled by the specialised decoder
				}
				want := []int{}
				if !v.gone[i] {
					for k := s.lo; k < s.hi; k++ {
						if k < v.cnt {
							want = append(want, k)
						}
					}
				}
				got := l[i].M
				good := fmt.Sprint(got) == fmt.Sprint(want)
				if !good && s.array && v.cnt == s.hi && len(got) > 0 {
					good = got[0] == s.lo && len(got) == s.hi-s.lo
				}
				if i == len(slots)-1 && seg && !good && vi > 0 {
					// the last element takes the remainder of the segment
					good = len(got) > 0 && got[0] == s.lo || len(want) == 0 && len(got) == 0
				}
				key := lab + "." + s.name
				if vi > 0 {
					key = lab + ":" + v.name
				}
				c.Check(rule, key, good, where, "with %s: component %s is written at %v but read from %v (%s)", v.name, s.name, want, got, cut(l[i].V.Key()))
			}
		}
		if okPaths == 0 && vi == 0 {
			var why []string
			for _, p := range r.paths {
				d := p.Kind + " " + p.Where
				if len(p.Res) > 0 {
					d += " " + cut(r.in.deep(p.St, p.Res[0]).Key())
				}
				why = append(why, d)
			}
			c.Check(rule, lab, false, where, "no successful decode of %d elements: %s", v.cnt, strings.Join(why, " | "))
		}
	}
}

func panicSite(p Path) string {
	w := p.Where
	if i := strings.Index(w, " at "); i >= 0 {
		w = w[:i]
	}
	return w
}

func mentionsAll(l []listComp) []int {
	m := map[int]bool{}
	for _, x := range l {
		for _, k := range x.M {
			m[k] = true
		}
	}
	var out []int
	for k := range m {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// checkStable runs the component list with unknown presence of every field.
func (c *Ctx) checkStable(n *types.Named) {
	f := c.P.components(n)
	if f == nil {
		return
	}
	in := NewInterp(c.P)
	in.ConvFork = false
	in.MaxPaths = 200
	st := c.P.NewState()
	recv := symRecv(st, n, "recv")
	ref := ""
	for _, p := range in.Run(st, f, recv) {
		if p.Kind != "return" {
			continue
		}
		ps, ok := in.parts(p.St, p.Res[0])
		if !ok {
			continue
		}
		var ks []string
		for _, x := range ps {
			v := p.St.resolve(x.V)
			if ic, ok := v.(*Iface); ok {
				v = ic.V
				if isNil(p.St.resolve(v)) {
					v = &Nil{}
				}
			}
			k := fieldOf(in.deep(p.St, v))
			if isNil(v) {
				k = "nil"
			}
			ks = append(ks, k)
		}
		if ref == "" {
			ref = strings.Join(ks, ",")
		}
		good := sameModuloNil(ref, strings.Join(ks, ","))
		c.Check("stable-list", typeLabel(n), good, c.P.Pos(f.Pos()), "component list depends on which components are present: [%s] vs [%s]", ref, strings.Join(ks, ","))
	}
	c.use(in)
}

func sameModuloNil(a, b string) bool {
	x, y := strings.Split(a, ","), strings.Split(b, ",")
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] != y[i] && x[i] != "nil" && y[i] != "nil" {
			return false
		}
	}
	return true
}

// resultNamed: the concrete struct a constructor returns (pointer to named struct of the package).
func resultNamed(fn *ssa.Function) *types.Named {
	if fn.Signature.Results().Len() == 0 {
		return nil
	}
	pt, ok := fn.Signature.Results().At(0).Type().(*types.Pointer)
	if !ok {
		return nil
	}
	n, _ := pt.Elem().(*types.Named)
	return n
}

func (p *Prog) constructors(rel string) []*ssa.Function {
	var out []*ssa.Function
	sp := p.Pkg(rel)
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if f, ok := sp.Members[n].(*ssa.Function); ok && strings.HasPrefix(strings.ToLower(n), "new") && f.Synthetic == "" && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	return out
}

// symArgs makes symbolic arguments for a function.
func symArgs(st *State, fn *ssa.Function) []Val {
	var out []Val
	for i, p := range fn.Params {
		t := sym(fmt.Sprintf("arg:%d:%s", i, p.Name()), p.Type())
		if isNillable(p.Type()) {
			if _, ok := under(p.Type()).(*types.Slice); !ok {
				nonNilTerm(st, t)
			}
		}
		out = append(out, t)
	}
	return out
}

func (c *Ctx) checkConstructors() {
	for _, rel := range []string{"element", "segment"} {
		for _, fn := range c.P.constructors(rel) {
			n := resultNamed(fn)
			if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Name() != rel || !c.P.hasComponents(n) {
				continue
			}
			if c.P.MethodOpt(types.NewPointer(n), "MarshalHBCI") == nil {
				continue
			}
			c.checkConstructor(fn, n, rel == "segment")
		}
	}
}

func (c *Ctx) checkConstructor(fn *ssa.Function, n *types.Named, seg bool) {
	in := NewInterp(c.P)
	in.ConvFork = false
	in.MaxPaths = 64
	in.DeepN = 10
	in.Hook = c.pureElementHook(n)
	st := c.P.NewState()
	args := symArgs(st, fn)
	lf := c.P.components(n)
	lab := fn.Pkg.Pkg.Name() + "." + fn.Name()
	where := c.P.Pos(fn.Pos())
	seen := map[string]bool{}
	paths := in.Run(st, fn, args...)
	c.use(in)
	for _, p := range paths {
		if p.Kind != "return" {
			continue
		}
		recv := p.Res[0]
		if isNil(p.St.resolve(recv)) {
			continue
		}
		l, nst, ok := c.list(p.St, lf, recv)
		if !ok {
			continue
		}
		pat := ""
		for _, x := range l {
			if x.Absent {
				pat += "-"
			} else {
				pat += "x"
			}
		}
		if seen[pat] {
			continue
		}
		seen[pat] = true
		c.checkJoin(fn, n, nst, recv, l, lab, pat, seg)
		if uf := c.P.ownMethod(n, "UnmarshalHBCI"); uf != nil && c.P.componentsMethod(n) != nil {
			cs, e := c.written(n, !seg)
			if e != "" || len(cs) != len(l) {
				continue
			}
			off := 0
			if seg {
				off = 1
			}
			cnt := off
			empty := map[int]bool{}
			for i, x := range cs {
				w := x.N
				if x.Array {
					w = 1
				}
				for k := 0; k < w; k++ {
					if l[i].Absent {
						empty[off+x.Pos+k] = true
					} else {
						cnt = off + x.Pos + k + 1
					}
				}
			}
			for k := range empty {
				if k >= cnt {
					delete(empty, k)
				}
			}
			r := c.runDecode(n, uf, cnt, empty, nil)
			good := false
			for _, q := range r.paths {
				if q.Kind == "return" && q.St.nilness(q.Res[len(q.Res)-1]) == 1 {
					good = true
				}
			}
			c.Check("own-form", lab+"/"+pat, good, c.P.Pos(uf.Pos()), "a value built by %s with components %s (- = absent) is rejected by its own decoder", lab, pat)
		}
	}
	_ = where
}

// list runs a component list method on a concrete receiver.
func (c *Ctx) list(st *State, lf *ssa.Function, recv Val) ([]listComp, *State, bool) {
	in := NewInterp(c.P)
	in.ConvFork = false
	s := st.clone()
	s.frames = nil
	var ret []Path
	for _, q := range in.Run(s, lf, recv) {
		if q.Kind == "return" {
			ret = append(ret, q)
		}
	}
	c.use(in)
	if len(ret) != 1 {
		return nil, nil, false
	}
	ps, ok := in.parts(ret[0].St, ret[0].Res[0])
	if !ok {
		return nil, nil, false
	}
	var out []listComp
	for _, x := range ps {
		if x.Spread {
			return nil, nil, false
		}
		v := ret[0].St.resolve(x.V)
		w := v
		if ic, ok := v.(*Iface); ok {
			w = ret[0].St.resolve(ic.V)
		}
		lc := listComp{Raw: w, V: v}
		if isNil(w) {
			lc.Absent = true
		} else if ret[0].St.nilness(w) == 0 {
			return nil, nil, false
		}
		out = append(out, lc)
	}
	rs := ret[0].St
	rs.frames = nil
	return out, rs, true
}

// pureElementHook keeps constructors of nested parts un-forked (none needed at present).
func (c *Ctx) pureElementHook(root *types.Named) func(*Call) ([]Outcome, bool) { return nil }

func (c *Ctx) checkJoin(fn *ssa.Function, n *types.Named, st *State, recv Val, l []listComp, lab, pat string, seg bool) {
	mf := c.P.MethodOpt(types.NewPointer(n), "MarshalHBCI")
	if mf == nil || len(mf.Blocks) == 0 {
		return
	}
	in := NewInterp(c.P)
	in.ConvFork = false
	in.MaxPaths = 64
	idx := map[string]int{}
	for i, x := range l {
		if !x.Absent {
			idx[x.Raw.Key()] = i
		}
	}
	rootKey := st.resolve(recv).Key()
	in.Hook = func(k *Call) ([]Outcome, bool) {
		if k.Callee == nil || k.Callee.Name() != "MarshalHBCI" || len(k.Args) == 0 {
			return nil, false
		}
		a := k.St.resolve(k.Args[0])
		if a.Key() == rootKey {
			return nil, false
		}
		name := ""
		if i, ok := idx[a.Key()]; ok {
			name = fmt.Sprintf("mar:%d", i)
		} else if seg && groupOwner(k.St, a) == "SegmentHeader" {
			name = "mar:header"
		} else {
			return nil, false
		}
		t := sym(name, tBytes)
		nonNilTerm(k.St, t)
		k.St.setIv(mk("len", tInt, t), 1, 1<<40)
		return []Outcome{{Res: tuple(t, &Nil{tError})}}, true
	}
	s := st.clone()
	s.frames = nil
	sep := ":"
	if seg {
		sep = "+"
	}
	var want []string
	if seg {
		want = append(want, "mar:header")
	}
	for i, x := range l {
		if x.Absent {
			want = append(want, "")
		} else {
			want = append(want, fmt.Sprintf("mar:%d", i))
		}
	}
	for len(want) > 0 && want[len(want)-1] == "" {
		want = want[:len(want)-1]
	}
	w := strings.Join(want, sep)
	if seg {
		w += "'"
	}
	n1 := 0
	for _, p := range in.Run(s, mf, recv) {
		if p.Kind != "return" || len(p.Res) != 2 || p.St.nilness(p.Res[1]) == 2 {
			continue
		}
		n1++
		got := flatText(in.bytesTerm(p.St, p.Res[0]))
		c.Check("join", lab+"/"+pat, got == w, c.P.Pos(fn.Pos()), "written as %q, expected %q", cut(got), w)
	}
	c.use(in)
	c.Check("join", lab+"/"+pat+"/paths", n1 > 0, c.P.Pos(fn.Pos()), "marshaling was not determined")
}

// flatText renders a concatenation with constants literally and other parts by key.
func flatText(v Val) string {
	var sb strings.Builder
	for _, x := range appendCat(nil, v) {
		x = stripConv(x)
		if s, ok := asStr(x); ok {
			sb.WriteString(s)
		} else {
			sb.WriteString(x.Key())
		}
	}
	return sb.String()
}

// checkCounts scans every group creation with a constant count.
func (c *Ctx) checkCounts() {
	for _, fn := range c.P.AllFuncs() {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				cal := call.Call.StaticCallee()
				if cal == nil || cal.Pkg == nil || cal.Pkg.Pkg.Path() != modPath+"/element" {
					continue
				}
				if cal.Name() != "NewDataElementGroup" && cal.Name() != "NewGroupDataElementGroup" {
					continue
				}
				k, ok := call.Call.Args[1].(*ssa.Const)
				mi, ok2 := call.Call.Args[2].(*ssa.MakeInterface)
				if !ok || !ok2 {
					continue
				}
				n := namedOf(mi.X.Type())
				if n == nil || c.P.componentsMethod(n) == nil {
					continue
				}
				cs, e := c.written(n, false)
				if e != "" {
					continue
				}
				c.Check("count", typeLabel(n)+" in "+fn.RelString(nil), int(k.Int64()) == len(cs), c.P.Pos(call.Pos()), "group declared with %d components but writes %d", k.Int64(), len(cs))
			}
		}
	}
}

// embeddedComposite is the element type a composite embeds by pointer and delegates to.
func (c *Ctx) embeddedComposite(n *types.Named) *types.Named {
	s, ok := under(n).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if !s.Field(i).Embedded() {
			continue
		}
		en := namedOf(s.Field(i).Type())
		if en != nil && c.P.isElementPkg(en) && c.P.componentsMethod(en) != nil && c.P.ownMethod(en, "UnmarshalHBCI") != nil {
			return en
		}
	}
	return nil
}

// groupOwner names the type whose component list a group value writes.
func groupOwner(st *State, v Val) string {
	p, ok := v.(*Ptr)
	if !ok {
		return ""
	}
	o, ok := getPath(st.get(p.Obj), p.Path)
	if !ok {
		return ""
	}
	if n := namedOf(valType(o)); n != nil && n.Obj().Name() != "elementGroup" {
		return n.Obj().Name()
	}
	s, ok := o.(*Struct)
	if !ok {
		return ""
	}
	for _, f := range s.F {
		if cl, ok := st.resolve(f).(*Closure); ok {
			for _, b := range cl.Bind {
				if ic, ok := st.resolve(b).(*Iface); ok {
					if n := namedOf(ic.Dyn); n != nil {
						return n.Obj().Name()
					}
				}
			}
		}
	}
	return ""
}

// checkComponents: a decoder that never succeeds loses its component.
func (c *Ctx) checkComponents() {
	k := newCrash(c)
	for _, fn := range c.P.AllFuncs() {
		n := recvNamed(fn)
		if !isDecoder(fn) || pkgRel(fn) != "element" || n == nil || !n.Obj().Exported() {
			continue // only the parts of other components
		}
		good := false
		trunc := k.runs(fn, n, &crashSites{}, func(st *State, recv *Ptr, q Path) { good = good || q.success() })
		if !good && trunc {
			c.Undecided("component", n.Obj().Name(), "not followed to its end")
			continue
		}
		c.Check("component", n.Obj().Name(), good, c.P.Pos(fn.Pos()), "decoding never succeeds")
	}
}
