package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// flow is an inclusion-based, field-based, context-insensitive alias analysis:
// it finds every value that refers to the memory of a set of sources. Level 0
// refers to that memory itself, level n to memory holding a reference of level
// n-1.
type flow struct {
	p       *Prog
	funcs   []*ssa.Function
	val     map[ssa.Value]int // level + 1
	why     map[ssa.Value]ssa.Value
	fld     map[fieldKey]int
	work    []ssa.Value
	callers map[*ssa.Function][]ssa.CallInstruction
	callees map[ssa.CallInstruction][]*ssa.Function
	fieldA  map[fieldKey][]ssa.Value
	fieldV  map[fieldKey][]ssa.Value
	globals map[*ssa.Global][]ssa.Instruction
	fieldOK func(fieldKey) bool
	taken   map[string][]*ssa.Function
}

type fieldKey struct {
	t   string
	idx int
}

func structKey(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return types.TypeString(t, nil)
}

// callGraph resolves the calls of the repository: static ones exactly, method
// calls by the implementing types, function values by signature.
func (p *Prog) callGraph() (map[ssa.CallInstruction][]*ssa.Function, map[*ssa.Function][]ssa.CallInstruction) {
	if p.cgOut != nil {
		return p.cgOut, p.cgIn
	}
	funcs := p.AllFuncs()
	taken := map[string][]*ssa.Function{}
	for _, fn := range funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				callee := ssa.Value(nil)
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					callee = c.Common().Value
				}
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					f, ok := (*o).(*ssa.Function)
					if !ok {
						continue
					}
					if f == callee {
						if _, isMC := in.(*ssa.MakeClosure); !isMC {
							continue
						}
					}
					k := types.TypeString(f.Signature, nil)
					taken[sigKey(f.Signature)] = append(taken[sigKey(f.Signature)], f)
					_ = k
				}
			}
		}
	}
	byName := map[string][]*ssa.Function{}
	for _, fn := range funcs {
		if fn.Signature.Recv() != nil {
			byName[fn.Name()] = append(byName[fn.Name()], fn)
		}
	}
	out := map[ssa.CallInstruction][]*ssa.Function{}
	inn := map[*ssa.Function][]ssa.CallInstruction{}
	for _, fn := range funcs {
		for _, b := range fn.Blocks {
			for _, x := range b.Instrs {
				c, ok := x.(ssa.CallInstruction)
				if !ok {
					continue
				}
				var l []*ssa.Function
				cc := c.Common()
				switch {
				case cc.IsInvoke():
					it, _ := cc.Value.Type().Underlying().(*types.Interface)
					for _, m := range byName[cc.Method.Name()] {
						rt := m.Signature.Recv().Type()
						if it != nil && (types.Implements(rt, it) || p.embeddedImplements(rt, it)) {
							l = append(l, m)
						}
					}
				case cc.StaticCallee() != nil:
					l = []*ssa.Function{cc.StaticCallee()}
				default:
					if _, isB := cc.Value.(*ssa.Builtin); !isB {
						if s, ok := cc.Value.Type().Underlying().(*types.Signature); ok {
							l = append(l, taken[sigKey(s)]...)
						}
					}
				}
				seen := map[*ssa.Function]bool{}
				for _, f := range l {
					// bound method wrappers and thunks lead to the method
					if f.Synthetic != "" && f.Object() != nil {
						if m, ok := f.Object().(*types.Func); ok {
							if mf := p.SSA.FuncValue(m); mf != nil {
								f = mf
							}
						}
					}
					if seen[f] {
						continue
					}
					seen[f] = true
					out[c] = append(out[c], f)
					inn[f] = append(inn[f], c)
				}
			}
		}
	}
	p.cgOut, p.cgIn = out, inn
	return out, inn
}

// embeddedImplements reports whether some struct embedding rt implements it.
func (p *Prog) embeddedImplements(rt types.Type, it *types.Interface) bool {
	n := namedOf(rt)
	if n == nil {
		return false
	}
	for _, e := range p.embedders(n) {
		if types.Implements(types.NewPointer(e), it) || types.Implements(e, it) {
			return true
		}
	}
	return false
}

// embedders lists the types that embed n, directly or not.
func (p *Prog) embedders(n *types.Named) []*types.Named {
	if p.embedBy == nil {
		p.embedBy = map[*types.Named][]*types.Named{}
		for _, sp := range p.SPkg {
			for _, m := range sp.Members {
				t, ok := m.(*ssa.Type)
				if !ok {
					continue
				}
				tn, ok := t.Type().(*types.Named)
				if !ok {
					continue
				}
				var add func(s types.Type, depth int)
				add = func(s types.Type, depth int) {
					st, ok := s.Underlying().(*types.Struct)
					if !ok || depth > 4 {
						return
					}
					for i := 0; i < st.NumFields(); i++ {
						if f := st.Field(i); f.Embedded() {
							if e := namedOf(f.Type()); e != nil {
								p.embedBy[e] = append(p.embedBy[e], tn)
								add(e, depth+1)
							}
						}
					}
				}
				add(tn, 0)
			}
		}
	}
	return p.embedBy[n]
}

func sigKey(s *types.Signature) string {
	return types.TypeString(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), nil)
}

func newFlow(p *Prog) *flow {
	f := &flow{p: p, val: map[ssa.Value]int{}, why: map[ssa.Value]ssa.Value{}, fld: map[fieldKey]int{},
		fieldA: map[fieldKey][]ssa.Value{}, fieldV: map[fieldKey][]ssa.Value{}}
	f.funcs = p.AllFuncs()
	f.callees, f.callers = p.callGraph()
	for _, fn := range f.funcs {
		for _, b := range fn.Blocks {
			for _, x := range b.Instrs {
				switch x := x.(type) {
				case *ssa.FieldAddr:
					k := f.keyOf(x)
					f.fieldA[k] = append(f.fieldA[k], x)
				case *ssa.Field:
					k := fieldKey{structKey(x.X.Type()), x.Field}
					f.fieldV[k] = append(f.fieldV[k], x)
				}
			}
		}
	}
	return f
}

// keyOf names the field a field address denotes: the field of one object when
// that object is local to the function until it is returned, the field of all
// objects of the type otherwise.
func (f *flow) keyOf(x *ssa.FieldAddr) fieldKey {
	if a, ok := x.X.(*ssa.Alloc); ok && confined(a) {
		return fieldKey{fmt.Sprintf("%p", a), x.Field}
	}
	return fieldKey{structKey(x.X.Type()), x.Field}
}

func confined(a *ssa.Alloc) bool {
	if a.Referrers() == nil {
		return false
	}
	for _, r := range *a.Referrers() {
		switch x := r.(type) {
		case *ssa.FieldAddr, *ssa.Return, *ssa.DebugRef:
		case *ssa.MakeInterface:
			for _, rr := range *x.Referrers() {
				if _, ok := rr.(*ssa.Return); !ok {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

// carries reports whether a type can hold a reference.
func carries(t types.Type) bool { return carriesN(t, 0) }
func carriesN(t types.Type, d int) bool {
	if d > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Signature:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if carriesN(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return carriesN(u.Elem(), d+1)
	case *types.Tuple:
		return true
	}
	return true
}

func (f *flow) add(v ssa.Value, level int, from ssa.Value) {
	if v == nil || level > 3 || !carries(v.Type()) {
		return
	}
	if isErrorType(v.Type()) {
		return
	}
	if cur, ok := f.val[v]; ok && cur <= level+1 {
		return
	}
	f.val[v] = level + 1
	if from != nil && from != v {
		f.why[v] = from
	}
	f.work = append(f.work, v)
}

func isErrorType(t types.Type) bool { return types.Identical(t, types.Universe.Lookup("error").Type()) }

// level returns the level of a value, -1 if it is no reference to a source.
func (f *flow) level(v ssa.Value) int { return f.val[v] - 1 }

func (f *flow) addField(k fieldKey, level int, from ssa.Value) {
	if level > 3 || f.fieldOK != nil && !f.fieldOK(k) {
		return
	}
	if cur, ok := f.fld[k]; ok && cur <= level+1 {
		return
	}
	f.fld[k] = level + 1
	for _, a := range f.fieldA[k] {
		// the address of the field holds the reference
		f.add(a, level+1, from)
	}
	for _, v := range f.fieldV[k] {
		f.add(v, level, from)
	}
}

// hold marks the location an address denotes as holding a reference of the level.
func (f *flow) hold(addr ssa.Value, level int, from ssa.Value) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		f.addField(fieldKey{structKey(a.X.Type()), a.Field}, level, from)
		f.addField(f.keyOf(a), level, from)
		return
	case *ssa.IndexAddr:
		f.container(a.X, level+1, from)
		return
	}
	f.container(addr, level+1, from)
}

// container marks a reference to memory that now holds a source reference,
// including the places the reference was read from.
func (f *flow) container(v ssa.Value, level int, from ssa.Value) {
	if level > 3 {
		return
	}
	if cur, ok := f.val[v]; ok && cur <= level+1 {
		return
	}
	f.add(v, level, from)
	switch x := v.(type) {
	case *ssa.Slice:
		f.container(x.X, level, from)
	case *ssa.ChangeType:
		f.container(x.X, level, from)
	case *ssa.Phi:
		for _, e := range x.Edges {
			f.container(e, level, from)
		}
	case *ssa.FieldAddr, *ssa.IndexAddr:
		f.hold(x, level-1, from)
	case *ssa.UnOp:
		f.hold(x.X, level, from)
	}
}

var aliasing = map[string]bool{
	"bytes.Split": true, "bytes.SplitN": true, "bytes.SplitAfter": true, "bytes.Fields": true, "bytes.FieldsFunc": true, "bytes.Trim": true,
	"bytes.TrimSpace": true, "bytes.TrimLeft": true, "bytes.TrimRight": true, "bytes.TrimPrefix": true, "bytes.TrimSuffix": true, "bytes.TrimFunc": true,
	"bytes.TrimLeftFunc": true, "bytes.TrimRightFunc": true, "bytes.Cut": true, "bytes.CutPrefix": true, "bytes.CutSuffix": true,
	"bytes.NewBuffer": true, "(*bytes.Buffer).Bytes": true, "slices.Clip": true, "slices.Grow": true,
}

func (f *flow) run() {
	for len(f.work) > 0 {
		v := f.work[len(f.work)-1]
		f.work = f.work[:len(f.work)-1]
		lv := f.val[v] - 1
		refs := v.Referrers()
		if g, ok := v.(*ssa.Global); ok {
			f.useGlobal(g, lv)
			continue
		}
		if refs == nil {
			continue
		}
		for _, r := range *refs {
			f.transfer(v, lv, r)
		}
	}
}

func (f *flow) useGlobal(g *ssa.Global, lv int) {
	if f.globals == nil {
		f.globals = map[*ssa.Global][]ssa.Instruction{}
		for _, fn := range f.funcs {
			for _, b := range fn.Blocks {
				for _, x := range b.Instrs {
					var ops [16]*ssa.Value
					for _, o := range x.Operands(ops[:0]) {
						if o != nil && *o != nil {
							if gg, ok := (*o).(*ssa.Global); ok {
								f.globals[gg] = append(f.globals[gg], x)
							}
						}
					}
				}
			}
		}
	}
	for _, x := range f.globals[g] {
		f.transfer(g, lv, x)
	}
}

func down(l int) int {
	if l == 0 {
		return 0
	}
	return l - 1
}

func (f *flow) transfer(v ssa.Value, lv int, r ssa.Instruction) {
	switch x := r.(type) {
	case *ssa.Phi, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Field:
		f.add(x.(ssa.Value), lv, v)
	case *ssa.Slice:
		if x.X == v {
			f.add(x, lv, v)
		}
	case *ssa.FieldAddr:
		f.add(x, lv, v)
	case *ssa.IndexAddr:
		if x.X == v {
			f.add(x, lv, v)
		}
	case *ssa.Index:
		if x.X == v {
			f.add(x, lv, v)
		}
	case *ssa.Lookup:
		if x.X == v {
			f.add(x, down(lv), v)
		}
	case *ssa.Range:
		f.add(x, lv, v)
	case *ssa.Next:
		f.add(x, down(lv), v)
	case *ssa.UnOp:
		f.add(x, down(lv), v)
	case *ssa.Store:
		if x.Val == v {
			f.hold(x.Addr, lv, v)
		}
	case *ssa.MapUpdate:
		if x.Value == v || x.Key == v {
			f.container(x.Map, lv+1, v)
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if b == v && i < len(fn.FreeVars) {
				f.add(fn.FreeVars[i], lv, v)
			}
		}
	case *ssa.Return:
		fn := x.Parent()
		for i, res := range x.Results {
			if res != v {
				continue
			}
			for _, c := range f.callers[fn] {
				cv, ok := c.(ssa.Value)
				if !ok {
					continue
				}
				if len(x.Results) == 1 {
					f.add(cv, lv, v)
					continue
				}
				if cv.Referrers() != nil {
					for _, rr := range *cv.Referrers() {
						if e, ok := rr.(*ssa.Extract); ok && e.Index == i {
							f.add(e, lv, v)
						}
					}
				}
			}
		}
	case ssa.CallInstruction:
		f.call(v, lv, x)
	}
}

func (f *flow) call(v ssa.Value, lv int, c ssa.CallInstruction) {
	cc := c.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			cv := c.(ssa.Value)
			if cc.Args[0] == v {
				f.add(cv, lv, v)
			}
			if len(cc.Args) > 1 && cc.Args[1] == v {
				if sl, ok := cv.Type().Underlying().(*types.Slice); ok && carries(sl.Elem()) {
					// elements are copied
					f.container(cv, max(lv, 1), v)
					f.container(cc.Args[0], max(lv, 1), v)
				}
			}
		case "copy":
			if cc.Args[1] == v {
				if sl, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok && carries(sl.Elem()) {
					f.container(cc.Args[0], max(lv, 1), v)
				}
			}
		}
		return
	}
	args := cc.Args
	if cc.IsInvoke() {
		args = append([]ssa.Value{cc.Value}, cc.Args...)
	}
	for _, callee := range f.callees[c] {
		if len(callee.Blocks) == 0 || !f.p.InRepo(callee) {
			if aliasing[callee.String()] {
				if cv, ok := c.(ssa.Value); ok {
					l := lv
					if sl, ok := cv.Type().Underlying().(*types.Slice); ok && carries(sl.Elem()) {
						l++
					}
					f.add(cv, l, v)
				}
			}
			continue
		}
		for i, a := range args {
			if a == v && i < len(callee.Params) {
				f.add(callee.Params[i], lv, v)
			}
		}
	}
}

// mutation is an instruction that writes to source memory.
type mutation struct {
	in   ssa.Instruction
	v    ssa.Value
	what string
}

// externalMutators lists library calls that write to an argument.
func externalMutator(name string, i int) bool {
	switch {
	case strings.HasPrefix(name, "sort.") && !strings.HasPrefix(name, "sort.Search") && !strings.Contains(name, "Sorted") && !strings.Contains(name, "AreSorted") && name != "sort.Find", strings.HasPrefix(name, "slices.Sort"), name == "slices.Reverse", name == "slices.Delete", name == "slices.Insert", name == "slices.Replace", name == "slices.Compact":
		return i == 0
	case name == "io.ReadFull", name == "io.ReadAtLeast":
		return i == 1
	case name == "crypto/rand.Read", name == "math/rand.Read":
		return i == 0
	case name == "encoding/hex.Decode", name == "encoding/hex.Encode":
		return i == 0
	case strings.HasPrefix(name, "(*encoding/base64.Encoding).Decode"), strings.HasPrefix(name, "(*encoding/base64.Encoding).Encode"):
		return i == 1
	case strings.HasPrefix(name, "(encoding/binary.") && strings.Contains(name, ".Put"):
		return i == 1
	case strings.HasPrefix(name, "(*bytes.Buffer).Write"), name == "(*bytes.Buffer).ReadFrom", name == "(*bytes.Buffer).Reset", name == "(*bytes.Buffer).Truncate":
		return i == 0
	case strings.HasPrefix(name, "(*sync.Map)."), strings.HasPrefix(name, "(*sync/atomic."), strings.HasPrefix(name, "(*container/list."):
		return i == 0
	case strings.HasPrefix(name, "sync/atomic."):
		return i == 0
	case strings.HasPrefix(name, "math/rand.Shuffle"):
		return false
	}
	return false
}

// mutations lists the writes to source memory.
func (f *flow) mutations() []mutation {
	var out []mutation
	for _, fn := range f.funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if f.level(x.Addr) == 0 {
						out = append(out, mutation{x, x.Addr, "assignment"})
					}
				case *ssa.MapUpdate:
					if f.level(x.Map) == 0 {
						out = append(out, mutation{x, x.Map, "map assignment"})
					}
				case ssa.CallInstruction:
					cc := x.Common()
					if bi, ok := cc.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append":
							if f.level(cc.Args[0]) == 0 && !clipped(cc.Args[0], 0) {
								out = append(out, mutation{x, cc.Args[0], "append"})
							}
						case "copy", "delete", "clear":
							if f.level(cc.Args[0]) == 0 {
								out = append(out, mutation{x, cc.Args[0], bi.Name()})
							}
						}
						continue
					}
					for _, callee := range f.callees[x] {
						if len(callee.Blocks) > 0 && f.p.InRepo(callee) {
							continue
						}
						name := callee.String()
						if o := callee.Origin(); o != nil {
							name = o.String()
						}
						args := cc.Args
						for i, a := range args {
							lv := f.level(a)
							if mi, ok := a.(*ssa.MakeInterface); ok && lv < 0 {
								lv = f.level(mi.X)
							}
							if lv != 0 {
								continue
							}
							mut := externalMutator(name, i)
							if strings.HasPrefix(name, "(*math/big.") && i == 0 && callee.Signature.Results().Len() > 0 && types.Identical(callee.Signature.Results().At(0).Type(), callee.Signature.Recv().Type()) {
								mut = true
							}
							if mut {
								out = append(out, mutation{x, a, "call of " + name})
							}
						}
					}
				}
			}
		}
	}
	return out
}

// clipped reports whether a slice has no spare capacity (s[i:j:j]).
func clipped(v ssa.Value, d int) bool {
	if d > 5 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Slice:
		return x.Max != nil && x.High == x.Max
	case *ssa.Phi:
		for _, e := range x.Edges {
			if e != v && !clipped(e, d+1) {
				return false
			}
		}
		return true
	case *ssa.Call:
		// the result of an append that copied
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return false
		}
	case *ssa.Const:
		return x.Value == nil
	}
	return false
}

// path explains how a source reached a value.
func (f *flow) path(v ssa.Value) string {
	var s []string
	for i := 0; v != nil && i < 12; i++ {
		d := v.Name()
		if fn := v.Parent(); fn != nil {
			d = fmt.Sprintf("%s in %s", d, fn.String())
		} else {
			d = v.String()
		}
		s = append(s, d)
		v = f.why[v]
	}
	return strings.Join(s, " <- ")
}
