package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// walk visits every sub-value.
func walk(v Val, f func(Val) bool) {
	if v == nil || !f(v) {
		return
	}
	switch x := v.(type) {
	case *Term:
		for _, a := range x.A {
			walk(a, f)
		}
	case *Struct:
		for _, a := range x.F {
			walk(a, f)
		}
	case *Seq:
		for _, p := range x.P {
			walk(p.V, f)
		}
	case *Iface:
		walk(x.V, f)
	case *Tuple:
		for _, a := range x.V {
			walk(a, f)
		}
	case *MapC:
		for _, e := range x.E {
			walk(e.K, f)
			walk(e.V, f)
		}
	case *Closure:
		for _, b := range x.Bind {
			walk(b, f)
		}
	}
}

// mentions collects the indices of symbolic wire elements (terms el:<n>) in v.
func mentions(v Val) []int {
	set := map[int]bool{}
	walk(v, func(x Val) bool {
		if t, ok := x.(*Term); ok && strings.HasPrefix(t.Op, "el:") {
			var n int
			fmt.Sscanf(t.Op[3:], "%d", &n)
			set[n] = true
		}
		return true
	})
	var out []int
	for n := range set {
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

// wireTypes lists named struct types of a package having all the given methods on *T.
func (p *Prog) typesWith(rel string, methods ...string) []*types.Named {
	var out []*types.Named
	sp := p.Pkg(rel)
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t, ok := sp.Members[n].(*ssa.Type)
		if !ok {
			continue
		}
		nm, ok := t.Type().(*types.Named)
		if !ok || types.IsInterface(nm) || nm.TypeParams().Len() > 0 {
			continue
		}
		all := true
		for _, m := range methods {
			if p.ownMethod(nm, m) == nil {
				all = false
			}
		}
		if all {
			out = append(out, nm)
		}
	}
	return out
}

// ownMethod finds a method declared on T or *T itself (not promoted).
func (p *Prog) ownMethod(n *types.Named, name string) *ssa.Function {
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.SSA.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (p *Prog) isElementPkg(n *types.Named) bool {
	return n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/element"
}

func namedOf(t types.Type) *types.Named {
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// componentsMethod is the method listing the components of a group.
func (p *Prog) componentsMethod(n *types.Named) *ssa.Function {
	for _, m := range []string{"Elements", "GroupDataElements", "elements"} {
		if f := p.ownMethod(n, m); f != nil {
			return f
		}
	}
	return nil
}

// Comp is one written component of a composite.
type Comp struct {
	Field string     // field of the receiver, "" if computed
	Typ   types.Type // dynamic type if known
	V     Val
	Pos   int // first wire position
	N     int // number of wire positions
	Array bool
}

// symRecv makes a symbolic non-nil receiver for *n.
func symRecv(st *State, n *types.Named, name string) *Term {
	t := sym(name, types.NewPointer(n))
	nonNilTerm(st, t)
	return t
}

// written computes the component list of a composite in writing order.
func (c *Ctx) written(n *types.Named, flatten bool) ([]Comp, string) {
	f := c.P.components(n)
	if f == nil {
		return nil, "no component list"
	}
	in := NewInterp(c.P)
	in.ConvFork = false
	st := c.P.NewState()
	recv := symRecv(st, n, "recv")
	// all pointer fields present
	if s, ok := under(n).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			t := s.Field(i).Type()
			if isNillable(t) {
				if _, isS := under(t).(*types.Slice); isS {
					continue
				}
				nonNilTerm(st, mk("."+s.Field(i).Name(), t, mk("*", n, recv)))
			}
		}
	}
	paths := in.Run(st, f, recv)
	c.use(in)
	var rets []Path
	for _, p := range paths {
		if p.Kind == "return" {
			rets = append(rets, p)
		}
	}
	if len(rets) == 0 {
		return nil, "component list not determined"
	}
	// keep the fullest result
	best := rets[0]
	bestN := -1
	for _, r := range rets {
		ps, ok := in.parts(r.St, r.Res[0])
		if ok && len(ps) > bestN {
			best, bestN = r, len(ps)
		}
	}
	ps, ok := in.parts(best.St, best.Res[0])
	if !ok {
		return nil, "component list not determined"
	}
	var out []Comp
	pos := 0
	for _, p := range ps {
		cm := Comp{Pos: pos, N: 1}
		if p.Spread {
			cm.Array = true
			cm.V = in.deep(best.St, p.V)
			cm.Field = fieldOf(cm.V)
			out = append(out, cm)
			pos++
			continue
		}
		v := best.St.resolve(p.V)
		if ic, ok := v.(*Iface); ok {
			cm.Typ = ic.Dyn
			v = ic.V
		}
		cm.V = in.deep(best.St, v)
		cm.Field = fieldOf(cm.V)
		if cm.Typ == nil {
			cm.Typ = valType(cm.V)
		}
		if flatten {
			cm.N = c.flatCount(cm.Typ, 0)
			if cm.N < 0 {
				cm.Array = true
				cm.N = 1
			}
		}
		pos += cm.N
		out = append(out, cm)
	}
	return out, ""
}

// flatCount is the number of ':'-separated positions a component occupies; -1 for arrays.
func (c *Ctx) flatCount(t types.Type, depth int) int {
	if depth > 8 || t == nil {
		return 1
	}
	n := namedOf(t)
	if n == nil || !c.P.isElementPkg(n) {
		return 1
	}
	if c.embedsArray(n) {
		return -1
	}
	if c.P.componentsMethod(n) == nil {
		return 1
	}
	cs, err := c.written(n, true)
	if err != "" {
		return 1
	}
	k := 0
	for _, x := range cs {
		if x.Array {
			return -1
		}
		k += x.N
	}
	return k
}

func (c *Ctx) embedsArray(n *types.Named) bool {
	s, ok := under(n).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			if en := namedOf(s.Field(i).Type()); en != nil && en.Obj().Name() == "arrayElementGroup" {
				return true
			}
		}
	}
	return false
}

// fieldOf names the receiver field a term denotes ("" if it is not a plain field).
func fieldOf(v Val) string {
	t, ok := v.(*Term)
	if !ok || !strings.HasPrefix(t.Op, ".") || len(t.A) != 1 {
		return ""
	}
	if b, ok := t.A[0].(*Term); ok {
		if b.Op == "*" {
			if r, ok := b.A[0].(*Term); ok {
				if r.Op == "recv" {
					return t.Op[1:]
				}
				if f := fieldOf(r); f != "" { // through an embedded pointer
					return f + t.Op
				}
			}
		}
		if strings.HasPrefix(b.Op, ".") { // promoted through an embedded struct
			if f := fieldOf(b); f != "" {
				return f + t.Op
			}
		}
	}
	return ""
}

// elems makes n symbolic non-empty wire elements; those listed in empty are empty.
func wireElems(in *Interp, st *State, n int, empty map[int]bool) Val {
	var ps []Part
	bt := types.NewSlice(tBytes)
	for i := 0; i < n; i++ {
		if empty[i] {
			z := cStr("")
			ps = append(ps, Part{V: &Term{Op: "conv", A: []Val{z}, T: tBytes, key: "conv(\"\")"}})
			continue
		}
		t := sym(fmt.Sprintf("el:%d", i), tBytes)
		nonNilTerm(st, t)
		st.setIv(mk("len", tInt, t), 1, 1<<40)
		ps = append(ps, Part{V: t})
	}
	return in.newSlice(st, bt, ps)
}

// isExtract recognises the splitters of the wire syntax by their type: bytes in, list of elements out.
func isExtract(c *Call) bool {
	if c.Callee == nil || c.Callee.Pkg == nil || !strings.HasPrefix(c.Callee.Pkg.Pkg.Path(), modPath) || c.Callee.Signature.Recv() != nil {
		return false
	}
	return isSplitter(c.Callee.Signature)
}

func isSplitter(s *types.Signature) bool {
	return s.Params().Len() == 1 && isByteSlice(s.Params().At(0).Type()) && s.Results().Len() == 2 &&
		types.Identical(s.Results().At(0).Type(), types.NewSlice(tBytes)) && isError(s.Results().At(1).Type())
}

// decodeRun analyses a decoder on n wire elements, treating component decoders as primitive.
type decodeRun struct {
	in    *Interp
	paths []Path
	recv  *Term
}

// recvOf returns the named receiver type of a method.
func recvNamed(fn *ssa.Function) *types.Named {
	if fn == nil || fn.Signature.Recv() == nil {
		return nil
	}
	return namedOf(fn.Signature.Recv().Type())
}

// componentDecode models "component.UnmarshalHBCI(bytes)" of element types other than the root.
func (c *Ctx) componentDecode(root *ssa.Function, fail func(arg Val) bool) func(*Call) ([]Outcome, bool) {
	return func(k *Call) ([]Outcome, bool) {
		if k.Callee == nil || k.Callee == root {
			return nil, false
		}
		if k.Callee.Name() == "UnmarshalHBCI" && len(k.Args) == 2 {
			n := recvNamed(k.Callee)
			if n == nil {
				return nil, false
			}
			if n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/element" {
				return nil, false
			}
			if rn := recvNamed(root); rn != nil && c.embeddedComposite(rn) == n {
				return nil, false
			}
			in, st := k.In, k.St
			arg := in.bytesTerm(st, k.Args[1])
			if fail != nil && fail(arg) {
				e := st.fresh("decerr", tError)
				nonNilTerm(st, e)
				return []Outcome{{Res: e}}, true
			}
			if p, ok := st.resolve(k.Args[0]).(*Ptr); ok {
				dec := mk("dec:"+n.Obj().Name(), n, arg)
				if nv, ok := setPath(st.get(p.Obj), p.Path, dec); ok {
					st.set(p.Obj, nv)
				}
				// decoded components have all parts present
				if s, ok := under(n).(*types.Struct); ok {
					for i := 0; i < s.NumFields(); i++ {
						if isNillable(s.Field(i).Type()) {
							nonNilTerm(st, mk("."+s.Field(i).Name(), s.Field(i).Type(), dec))
						}
					}
				}
			}
			return []Outcome{{Res: &Nil{tError}}}, true
		}
		return nil, false
	}
}

func (c *Ctx) runDecode(n *types.Named, f *ssa.Function, cnt int, empty map[int]bool, fail func(Val) bool) *decodeRun {
	in := NewInterp(c.P)
	in.ConvFork = false
	st := c.P.NewState()
	recv := symRecv(st, n, "recv")
	// the receiver starts zeroed
	o := st.alloc(zero(n))
	st.syms[recv.key] = o
	comp := c.componentDecode(f, fail)
	in.Hook = func(k *Call) ([]Outcome, bool) {
		if isExtract(k) {
			return []Outcome{{Res: tuple(wireElems(in, k.St, cnt, empty), &Nil{tError})}}, true
		}
		return comp(k)
	}
	value := sym("value", tBytes)
	nonNilTerm(st, value)
	r := &decodeRun{in: in, recv: recv}
	r.paths = in.Run(st, f, recv, value)
	c.use(in)
	return r
}

// field returns the deep value of a receiver field after a path.
func (r *decodeRun) field(p Path, n *types.Named, name string) Val {
	o := p.St.syms[r.recv.key]
	v := p.St.get(o)
	T := types.Type(n)
	for _, part := range strings.Split(name, ".") {
		s, ok := under(T).(*types.Struct)
		if !ok {
			if pt, ok2 := under(T).(*types.Pointer); ok2 {
				s, ok = under(pt.Elem()).(*types.Struct)
				if pv, ok3 := p.St.resolve(v).(*Ptr); ok3 {
					v, _ = getPath(p.St.get(pv.Obj), pv.Path)
				}
			}
			if !ok {
				return nil
			}
		}
		idx := -1
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == part {
				idx = i
				T = s.Field(i).Type()
			}
		}
		if idx < 0 {
			return nil
		}
		v, ok = getPath(v, []int{idx})
		if !ok {
			return nil
		}
	}
	return r.in.deep(p.St, v)
}
