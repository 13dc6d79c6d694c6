package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P11"] = checkP11 }

// checkP11 decides that no bytes of the bank make the library fail at run time.
func checkP11(c *Ctx) {
	c.Rule("decode", "decoding a composite or segment from any number of elements, empty or not, ends with a value or an error", 60)
	k := newCrash(c)
	c.Rule("bounds", "no step of a tokenizer reads outside its input, whatever the input is", 5)
	c.Rule("split", "a splitter that succeeds hands out at least one element", 2)
	c.Rule("consumer", "what the library does with a decoded message never fails at run time, whatever segments it contains", 10)
	c.Rule("statement", "reading a tag of an account statement, whatever it contains, ends with a value or an error", 7)
	c.Rule("accessor", "whatever was decoded can be asked for its values and written again", 60)
	c.Rule("primitive", "a primitive always holds a value of the type its Val asserts, however it was made", 12)
	k.lexing()
	k.splits()
	k.primitives()
	k.decoders()
	k.statements()
	k.consumers()
}

func newCrash(c *Ctx) *crashCheck {
	return &crashCheck{c: c, p: c.P, always: map[*types.Named]map[string]bool{}, holds: map[*types.Named]types.Type{}, busy: map[*types.Named]bool{}, entries: map[*types.Named]types.Type{}, mixed: map[*types.Named]bool{},
		least: map[string]int{"element": 1, "segment": 1}}
}

// primitives compares what decoders and constructors put into a primitive.
func (k *crashCheck) primitives() {
	c := k.c
	for _, fn := range k.p.AllFuncs() {
		if pkgRel(fn) != "element" || fn.Signature.Recv() != nil || fn.Synthetic != "" || len(fn.Blocks) == 0 || fn.Signature.Results().Len() != 1 || fn.Parent() != nil {
			continue
		}
		n := namedOf(fn.Signature.Results().At(0).Type())
		if n == nil || !isPrimitive(n) {
			continue
		}
		k.summary(n)
		in := NewInterp(k.p)
		st := k.p.NewState()
		st.frames = nil
		ps := in.Run(st, fn, symArgs(st, fn)...)
		c.use(in)
		want := k.holds[n]
		for _, q := range ps {
			if q.Kind != "return" {
				if q.Kind == "trunc" {
					c.Undecided("primitive", fn.Name(), "not followed to its end")
				}
				continue
			}
			got := k.held(q.St, q.Res[0])
			if got == nil {
				c.Undecided("primitive", fn.Name(), "what it holds is unknown")
				continue
			}
			if want == nil {
				want = got
			}
			c.Check("primitive", fn.Name(), types.Identical(got, want), q.Where, "holds a %s where a decoded %s holds a %s", typeName(got), n.Obj().Name(), typeName(want))
		}
	}
}

// held is the type of the value in a primitive.
func (k *crashCheck) held(st *State, v Val) types.Type {
	p, ok := st.resolve(v).(*Ptr)
	if !ok {
		return nil
	}
	x, ok := getPath(st.get(p.Obj), p.Path)
	if !ok {
		return nil
	}
	s, ok := x.(*Struct)
	if !ok {
		return nil
	}
	t, ok := under(s.T).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Name() == "val" {
			if f, ok := st.resolve(s.F[i]).(*Iface); ok {
				return f.Dyn
			}
		}
	}
	for i := 0; i < t.NumFields(); i++ {
		if t.Field(i).Embedded() {
			if r := k.held(st, s.F[i]); r != nil {
				return r
			}
		}
	}
	return nil
}

// statements runs the readers of account statements on any bytes.
func (k *crashCheck) statements() {
	c := k.c
	var fns []*ssa.Function
	for _, fn := range k.p.AllFuncs() {
		if pkgRel(fn) == "swift" && fn.Signature.Recv() != nil && len(fn.Params) == 2 && isByteSlice(fn.Params[1].Type()) && fn.Synthetic == "" && len(fn.Blocks) > 0 && hasError(fn.Signature) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		n := recvNamed(fn)
		name := n.Obj().Name() + "." + fn.Name()
		f := &crashSites{}
		trunc := false
		pieces := k.usesPieces(fn)
		handed := 0
		for cnt := 0; cnt <= 3; cnt++ {
			if cnt > 0 && !pieces {
				break
			}
			in := k.interp(f)
			found := map[string][]needle{}
			in.Hook = func(call *Call) ([]Outcome, bool) {
				if r, ok := k.tagHook(call, fn, cnt); ok {
					return r, true
				}
				if r, ok := bufferModel(call); ok {
					return r, true
				}
				return searchModel(call, found)
			}
			st := k.p.NewState()
			st.frames = nil
			recv := &Ptr{Obj: st.alloc(zero(n))}
			ps := in.Run(st, fn, recv, sym("value", tBytes))
			c.use(in)
			trunc = f.ends(k.p, ps) || trunc
			// what was read can be asked for
			for _, q := range ps {
				if q.Kind != "return" || !q.success() {
					continue
				}
				for _, g := range k.niladic(n) {
					s := q.St.clone()
					s.frames = nil
					in := k.interp(f)
					in.Hook = func(call *Call) ([]Outcome, bool) { return nil, false }
					rs := in.Run(s, g, recv)
					trunc = f.ends(k.p, rs) || trunc
					handed++
					c.use(in)
				}
			}
		}
		if trunc {
			c.note("statement|%s: loops followed for a bounded number of rounds", name)
		}
		c.Check("statement", name, len(f.order) == 0, k.p.Pos(fn.Pos()), "can fail at run time: %s", f)
	}
}

// niladic: the exported methods of a pointer type without parameters.
func (k *crashCheck) niladic(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		fn := k.p.SSA.MethodValue(ms.At(i))
		if fn == nil || !ms.At(i).Obj().Exported() || fn.Signature.Params().Len() != 0 || len(fn.Blocks) == 0 {
			continue
		}
		out = append(out, fn)
	}
	return out
}

// usesPieces: is the input taken apart into an unknown number of pieces?
func (k *crashCheck) usesPieces(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(*ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !k.p.InRepo(f) {
			return false
		}
		seen[f] = true
		if f != fn && isPieces(f) {
			return true
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if cl, ok := i.(ssa.CallInstruction); ok && rec(cl.Common().StaticCallee()) {
					return true
				}
			}
		}
		return false
	}
	return rec(fn)
}

// isPieces recognises the extractors of messages and tags by their type.
func isPieces(f *ssa.Function) bool {
	s := f.Signature
	return s.Recv() != nil && s.Params().Len() == 0 && s.Results().Len() == 2 &&
		types.Identical(s.Results().At(0).Type(), types.NewSlice(tBytes)) && isError(s.Results().At(1).Type())
}

func (k *crashCheck) tagHook(call *Call, root *ssa.Function, cnt int) ([]Outcome, bool) {
	st := call.St
	g := call.Callee
	if g == nil || g == root || !k.p.InRepo(g) {
		return nil, false
	}
	failed := func(res func(e Val) Val) Outcome {
		e := st.fresh("broken", tError)
		return Outcome{Res: res(e), Do: func(s *State) bool { nonNilTerm(s, e); return true }}
	}
	if isPieces(g) {
		n := cnt
		if noteInt(st, "pieces") > 0 { // messages are taken apart into tags
			n = cnt
		} else if isPiecesOfPieces(root) {
			n = min(cnt, 1)
		}
		var ps []Part
		for i := 0; i < n; i++ {
			t := st.fresh("piece", tBytes)
			ps = append(ps, Part{V: t})
		}
		return []Outcome{
			{Res: tuple(call.In.newSlice(st, types.NewSlice(tBytes), ps), &Nil{tError}), Do: func(s *State) bool { bump(s, "pieces"); return true }},
			failed(func(e Val) Val { return tuple(&Nil{types.NewSlice(tBytes)}, e) }),
		}, true
	}
	// the readers of single tags are judged on their own
	if g.Signature.Recv() != nil && g.Signature.Params().Len() == 1 && isByteSlice(g.Signature.Params().At(0).Type()) && g.Signature.Results().Len() == 1 && hasError(g.Signature) && k.usesPieces(root) && !k.usesPieces(g) {
		n := recvNamed(g)
		p, ok := st.resolve(call.Args[0]).(*Ptr)
		if n == nil || !ok {
			return nil, false
		}
		dec := st.fresh("decoded:"+n.Obj().Name(), n)
		return []Outcome{
			{Res: &Nil{tError}, Do: func(s *State) bool {
				if nv, ok := setPath(s.get(p.Obj), p.Path, dec); ok {
					s.set(p.Obj, nv)
				}
				return true
			}},
			failed(func(e Val) Val { return e }),
		}, true
	}
	return nil, false
}

// isPiecesOfPieces: a function handing out more than an error takes messages apart.
func isPiecesOfPieces(fn *ssa.Function) bool { return fn.Signature.Results().Len() > 1 }

type needle struct {
	text string
	at   *Term
}

// searchModel knows where something found in a text is: within it, and not
// overlapping anything else found there unless the texts allow it.
func searchModel(call *Call, found map[string][]needle) ([]Outcome, bool) {
	st, in := call.St, call.In
	switch call.Name {
	case "(time.Time).Year":
		if lo := leastYear(st, in.deep(st, call.Args[0])); lo > 0 {
			t := mk("call:"+call.Name, tInt, in.deepArgs(call)...)
			return []Outcome{{Res: t, Do: func(s *State) bool { return s.setIv(t, lo, 9999) }}}, true
		}
		return nil, false
	case "strings.Index", "bytes.Index", "strings.LastIndex", "bytes.LastIndex":
	default:
		return nil, false
	}
	hay := stripConv(in.bytesTerm(st, call.Args[0]))
	what, ok := asStr(stripConv(in.bytesTerm(st, call.Args[1])))
	if !ok || what == "" {
		return nil, false
	}
	key := hay.Key()
	t := mk("at:"+call.Name, tInt, hay, cStr(what))
	for _, o := range found[key] {
		if o.at.key == t.key {
			if lo, hi := st.interval(t); lo >= 0 || hi < 0 {
				return []Outcome{{Res: t}}, true
			}
		}
	}
	n := len(what)
	size := in.lenVal(st, call.Args[0])
	outs := []Outcome{{Res: cInt(-1), Do: func(s *State) bool { return s.setIv(t, -1, -1) }}}
	var others []needle
	cnt := 0
	for _, o := range found[key] {
		if lo, _ := st.interval(o.at); lo >= 0 && o.at.key != t.key {
			others = append(others, o)
			cnt++
		}
	}
	known := false
	for _, o := range found[key] {
		known = known || o.at.key == t.key
	}
	if !known {
		found[key] = append(found[key], needle{what, t})
	}
	if cnt >= 2 { // any two neighbours
		return outs, true
	}
	// a relation to each of the others
	type rel func(s *State) bool
	alts := []rel{func(s *State) bool {
		return s.setIv(t, 0, 1<<40) && s.assume(mk("<=", tBool, mkLinear(t, int64(n), tInt), size), true) && s.assume(mk("<", tBool, t, size), true)
	}}
	for _, o := range others {
		o := o
		var next []rel
		for _, a := range alts {
			a := a
			m := len(o.text)
			next = append(next,
				func(s *State) bool { // before
					return a(s) && s.assume(mk("<=", tBool, mkLinear(t, int64(n), tInt), o.at), true) && s.assume(mk("<", tBool, t, o.at), true)
				},
				func(s *State) bool { // behind
					return a(s) && s.assume(mk("<=", tBool, mkLinear(o.at, int64(m), tInt), t), true) && s.assume(mk("<", tBool, o.at, t), true)
				})
			for d := -n + 1; d < m; d++ {
				if d == 0 && what == o.text || overlaps(o.text, what, d) {
					d := d
					next = append(next, func(s *State) bool {
						return a(s) && s.assume(mk("==", tBool, t, mkLinear(o.at, int64(d), tInt)), true)
					})
				}
			}
		}
		alts = next
	}
	for _, a := range alts {
		a := a
		outs = append(outs, Outcome{Res: t, Do: func(s *State) bool { return a(s) }})
	}
	return outs, true
}

// overlaps: can b start d places behind the start of a?
func overlaps(a, b string, d int) bool {
	for i := range a {
		j := i - d
		if j >= 0 && j < len(b) && a[i] != b[j] {
			return false
		}
	}
	return true
}

// leastYear is the earliest year of a date read from a text beginning with a
// year of four places, or put together from such a year.
func leastYear(st *State, v Val) int64 {
	t, ok := stripConv(v).(*Term)
	if !ok {
		return 0
	}
	switch {
	case strings.HasSuffix(t.Op, "(time.Time).Truncate"):
		return leastYear(st, t.A[0])
	case strings.HasSuffix(t.Op, "time.Date"):
		lo, _ := st.interval(t.A[0])
		if m, ok := asInt(t.A[1]); ok && m > 1 && lo >= 1000 {
			return lo
		}
		m, ok1 := stripConv(t.A[1]).(*Term)
		d, ok2 := stripConv(t.A[2]).(*Term)
		if ok1 && ok2 && strings.HasSuffix(m.Op, "(time.Time).Month") && strings.HasSuffix(d.Op, "(time.Time).Day") && lo >= 1000 {
			return lo
		}
	case strings.Contains(t.Op, "time.Parse."):
		ps := textParts(t.A[1])
		if l, ok := asStr(t.A[0]); !ok || !strings.HasPrefix(l, "2006") || len(ps) == 0 {
			return 0
		}
		if p, ok := asStr(ps[0]); ok && p != "" && p[0] >= '1' && p[0] <= '9' {
			return 1000
		}
		if y, ok := stripConv(ps[0]).(*Term); ok && y.Op == "itoa" {
			if lo, _ := st.interval(y.A[0]); lo >= 1000 {
				return 1000
			}
		}
		if s, ok := ps[0].(*Term); ok && s.Op == "slice" && len(s.A) == 3 {
			if y, ok := stripConv(s.A[0]).(*Term); ok && y.Op == "itoa" {
				lo, _ := st.interval(y.A[0])
				from, ok1 := asInt(s.A[1])
				if to, ok := asInt(s.A[2]); ok && ok1 && from == 0 && to >= 1 && lo >= 1000 {
					return 1000
				}
			}
		}
	}
	return 0
}

func hasError(s *types.Signature) bool {
	return s.Results().Len() > 0 && isError(s.Results().At(s.Results().Len()-1).Type())
}

type crashCheck struct {
	c *Ctx
	p *Prog
	// always: what a successful decoder of a type leaves present, "field" of the type
	always map[*types.Named]map[string]bool
	// holds: the type of the value in a decoded primitive
	holds map[*types.Named]types.Type
	// entries: the type of the entries of a decoded list
	entries map[*types.Named]types.Type
	mixed   map[*types.Named]bool
	busy    map[*types.Named]bool
	least   map[string]int
	// what the registry decodes
	reg       map[string][]*types.Named
	decoders0 []*types.Named
}

// crashSites collects what can fail at run time.
type crashSites struct {
	m      map[string]string
	order  []string
	instrs []ssa.Instruction
	cut    bool // not all paths were followed
}

func (f *crashSites) add(where, what string) {
	if f.m == nil {
		f.m = map[string]string{}
	}
	if _, ok := f.m[where]; !ok {
		f.m[where] = what
		f.order = append(f.order, where)
	}
}

func (f *crashSites) String() string {
	var l []string
	for _, w := range f.order {
		l = append(l, w+": "+f.m[w])
	}
	return strings.Join(l, "; ")
}

func (k *crashCheck) interp(f *crashSites) *Interp {
	in := NewInterp(k.p)
	in.ConvFork = false
	in.CheckNil = true
	in.OnSite = func(st *State, s Site) {
		if k.justified(st, s) {
			return
		}
		f.add(k.p.Pos(s.Instr.Pos()), s.Desc)
	}
	return in
}

// justified: is a site safe for a reason the interpreter does not know?
func (k *crashCheck) justified(st *State, s Site) bool {
	t, ok := s.V.(*Term)
	if !ok {
		return false
	}
	switch s.Kind {
	case "nilderef":
		if strings.HasPrefix(t.Op, "global:") && !strings.HasPrefix(t.Op, "global:"+modPath) {
			return true // the values other packages export
		}
		if n, f := k.fieldTerm(t); n != nil {
			k.summary(n)
			return k.always[n][f]
		}
	case "typeassert?":
		if n, f := k.fieldTerm(t); n != nil && f == "val" {
			b, ok := t.A[0].(*Term)
			if ok && b.Op == "*" && len(b.A) == 1 {
				if o, g := k.fieldTerm(b.A[0]); o != nil && g == "basicDataElement" {
					k.summary(o)
					return k.holds[o] != nil && types.Identical(k.holds[o], s.T)
				}
			}
		}
	}
	if s.Kind == "typeassert?" && len(t.A) >= 1 && strings.Contains(t.Op, ").Value#") {
		if a, ok := t.A[0].(*Term); ok {
			if n := k.entryOf(a); n != nil && k.entries[n] != nil {
				e := namedOf(k.entries[n])
				k.summary(e)
				return k.holds[e] != nil && types.Identical(k.holds[e], s.T)
			}
		}
	}
	if n := k.entryOf(t); n != nil && k.entries[n] != nil {
		switch s.Kind {
		case "nilderef":
			return true
		case "typeassert?":
			return types.Identical(k.entries[n], s.T)
		}
	}
	switch s.Kind {
	case "makeslice":
		// bounded by the bytes that are there
		lo, _ := st.interval(t)
		return lo >= 0 && k.bounded(st, t)
	}
	return false
}

// entryOf: the list type whose entry a value is.
func (k *crashCheck) entryOf(t *Term) *types.Named {
	if t.Op != "idx" || len(t.A) < 2 {
		return nil
	}
	a, ok := t.A[0].(*Term)
	if !ok || a.Op != ".array" || len(a.A) != 1 {
		return nil
	}
	b, ok := a.A[0].(*Term)
	if !ok || b.Op != "*" || len(b.A) != 1 {
		return nil
	}
	n, f := k.fieldTerm(b.A[0])
	if n == nil || f != "arrayElementGroup" {
		return nil
	}
	k.summary(n)
	return n
}

// bounded: was a number compared with a length it does not exceed?
func (k *crashCheck) bounded(st *State, t *Term) bool {
	found := false
	st.conds(func(cd *Term, b bool) {
		walk(cd, func(v Val) bool {
			x, ok := v.(*Term)
			if !ok || len(x.A) != 2 || x.Op != "<" && x.Op != "<=" {
				return true
			}
			for i := range x.A {
				l, isT := stripConv(x.A[1-i]).(*Term)
				if stripConv(x.A[i]).Key() == t.key && isT && (l.Op == "len" || strings.Contains(l.Op, "(*bytes.Buffer).Len")) {
					le := mk("<=", tBool, x.A[i], x.A[1-i])
					if b, known := st.truth(le); known && b {
						found = true
					}
				}
			}
			return true
		})
	})
	return found
}

// fieldTerm takes a field of a value apart.
func (k *crashCheck) fieldTerm(v Val) (*types.Named, string) {
	t, ok := v.(*Term)
	if !ok || len(t.A) != 1 || !strings.HasPrefix(t.Op, ".") {
		return nil, ""
	}
	b, ok := t.A[0].(*Term)
	if !ok {
		return nil, ""
	}
	return namedOf(b.T), t.Op[1:]
}

// summary finds out what is present after a decoder of a type succeeded.
func (k *crashCheck) summary(n *types.Named) {
	if k.always[n] != nil || k.busy[n] {
		return
	}
	k.busy[n] = true
	defer delete(k.busy, n)
	s, ok := under(n).(*types.Struct)
	fn := k.p.ownMethod(n, "UnmarshalHBCI")
	if !ok || !isDecoder(fn) {
		k.always[n] = map[string]bool{}
		return
	}
	res := map[string]bool{}
	for i := 0; i < s.NumFields(); i++ {
		res[s.Field(i).Name()] = true
	}
	var val types.Type
	one := true
	seen := false
	k.runs(fn, n, &crashSites{}, func(st *State, recv *Ptr, q Path) {
		if !q.success() {
			return
		}
		obj, ok := st.get(recv.Obj).(*Struct)
		if !ok {
			one = false
			for f := range res {
				delete(res, f)
			}
			return
		}
		seen = true
		for i, f := range obj.F {
			name := s.Field(i).Name()
			v := st.resolve(f)
			switch x := v.(type) {
			case *Ptr, *Iface, *Struct:
			case *Term:
				if st.nilness(x) != 2 && !isStructTerm(x) {
					delete(res, name)
				}
			default:
				delete(res, name)
			}
			if p, ok := v.(*Ptr); ok && name == "arrayElementGroup" {
				k.listed(st, n, p)
			}
			if name == "basicDataElement" {
				p, ok := v.(*Ptr)
				if !ok {
					one = false
					continue
				}
				b, _ := st.get(p.Obj).(*Struct)
				if b == nil {
					one = false
					continue
				}
				e, ok := st.resolve(b.F[0]).(*Iface)
				if !ok || val != nil && !types.Identical(val, e.Dyn) {
					one = false
					continue
				}
				val = e.Dyn
			}
		}
	})
	if !seen {
		res = map[string]bool{}
	}
	k.always[n] = res
	if one && seen && val != nil {
		k.holds[n] = val
	}
}

// listed takes down what the entries of a list are.
func (k *crashCheck) listed(st *State, n *types.Named, p *Ptr) {
	g, _ := st.get(p.Obj).(*Struct)
	if g == nil {
		return
	}
	s := under(g.T).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != "array" {
			continue
		}
		sl, ok := st.resolve(g.F[i]).(*Slice)
		if !ok {
			continue
		}
		ps, ok := NewInterp(k.p).parts(st, sl)
		if !ok {
			k.mixed[n] = true
		}
		for _, e := range ps {
			x, ok := st.resolve(e.V).(*Iface)
			if !ok || e.Spread || k.entries[n] != nil && !types.Identical(k.entries[n], x.Dyn) {
				k.mixed[n] = true
				continue
			}
			if _, isNil := st.resolve(x.V).(*Nil); isNil {
				k.mixed[n] = true
			}
			k.entries[n] = x.Dyn
		}
	}
	if k.mixed[n] {
		k.entries[n] = nil
	}
}

func isStructTerm(t *Term) bool {
	_, ok := under(t.T).(*types.Struct)
	return ok
}

// ends adds paths that do not end with a value.
func (f *crashSites) ends(p *Prog, ps []Path) (trunc bool) {
	for _, q := range ps {
		switch q.Kind {
		case "panic", "exit":
			f.add(q.Where, "ends in "+q.Kind)
		case "trunc":
			trunc = true
		}
	}
	return
}

// isDecoder: UnmarshalHBCI of a component or segment.
func isDecoder(fn *ssa.Function) bool {
	return fn != nil && fn.Name() == "UnmarshalHBCI" && len(fn.Params) == 2 && isByteSlice(fn.Params[1].Type()) && fn.Synthetic == "" && len(fn.Blocks) > 0
}

func (k *crashCheck) decoders() {
	c := k.c
	var fns []*ssa.Function
	for _, fn := range k.p.AllFuncs() {
		if r := pkgRel(fn); isDecoder(fn) && (r == "element" || r == "segment") {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		n := recvNamed(fn)
		if n == nil {
			continue
		}
		if n.Obj().Name() == "elementGroup" {
			k.generic(fn) // decodes by the elements it was made of
			continue
		}
		name := n.Obj().Name() + "." + fn.Name()
		f := &crashSites{}
		g := map[string]*crashSites{}
		lost := map[string]bool{}
		ms := k.niladic(n)
		trunc := k.runs(fn, n, f, func(st *State, recv *Ptr, q Path) {
			if !q.success() {
				return
			}
			for _, m := range ms {
				if o := k.p.ownMethod(n, m.Name()); o == nil || m.Signature.Results().Len() == 0 || strings.HasPrefix(m.Name(), "Marshal") || m.Name() == "String" {
					continue
				}
				if g[m.Name()] == nil {
					g[m.Name()] = &crashSites{}
				}
				s := st.clone()
				s.frames = nil
				in := k.interp(g[m.Name()])
				in.MaxFork = 1
				in.MaxPaths = 500
				in.Hook = func(call *Call) ([]Outcome, bool) { return nil, false }
				rs := in.Run(s, m, recv)
				if g[m.Name()].ends(k.p, rs) {
					lost[m.Name()] = true
				}
				c.use(in)
			}
		})
		if trunc {
			c.Undecided("decode", name, "not followed to its end")
		}
		if !trunc || len(f.order) > 0 {
			c.Check("decode", name, len(f.order) == 0, k.p.Pos(fn.Pos()), "can fail at run time: %s", f)
		}
		var mn []string
		for m := range g {
			mn = append(mn, m)
		}
		sort.Strings(mn)
		for _, m := range mn {
			nm := n.Obj().Name() + "." + m
			if lost[m] {
				c.note("accessor|%s: loops followed for a bounded number of rounds", nm)
			}
			c.Check("accessor", nm, len(g[m].order) == 0, k.p.Pos(fn.Pos()), "can fail at run time: %s", g[m])
		}
	}
}

// generic looks at a decoder that works by reflection: only the places where it
// takes something out of a list are judged.
func (k *crashCheck) generic(fn *ssa.Function) {
	c := k.c
	f := &crashSites{}
	in := k.interp(f)
	on := in.OnSite
	in.OnSite = func(st *State, s Site) {
		switch s.Kind {
		case "index", "index?", "slice", "slice?", "makeslice":
			on(st, s)
		}
	}
	st := k.p.NewState()
	st.frames = nil
	in.Run(st, fn, symArgs(st, fn)...)
	c.use(in)
	c.Check("decode", recvNamed(fn).Obj().Name()+"."+fn.Name(), len(f.order) == 0, k.p.Pos(fn.Pos()), "can fail at run time: %s", f)
}

// runs executes a decoder for any number of elements.
func (k *crashCheck) runs(fn *ssa.Function, n *types.Named, f *crashSites, visit func(*State, *Ptr, Path)) (trunc bool) {
	max := 0
	if s, ok := under(n).(*types.Struct); ok {
		max = s.NumFields() + 2
		if e := k.c.embeddedComposite(n); e != nil {
			if i, ok := under(e).(*types.Struct); ok && i.NumFields()+2 > max {
				max = i.NumFields() + 2
			}
		}
	}
	run := func(cnt int, empty map[int]bool) {
		in := k.interp(f)
		in.Hook = k.componentHook(fn, cnt, empty)
		st := k.p.NewState()
		st.frames = nil
		recv := &Ptr{Obj: st.alloc(zero(n))}
		value := sym("value", tBytes)
		ps := in.Run(st, fn, recv, value)
		trunc = f.ends(k.p, ps) || trunc
		k.c.use(in)
		if visit != nil {
			for _, q := range ps {
				if q.Kind == "return" {
					visit(q.St, recv, q)
				}
			}
		}
	}
	if !k.callsSplitter(fn) {
		run(0, nil)
		return
	}
	all := map[int]bool{}
	for i := 0; i < max; i++ {
		all[i] = true
	}
	counts := map[int]bool{}
	for _, g := range groupSizes(fn) {
		for _, cnt := range []int{g - 1, g, g + 1, 2 * g} {
			if cnt > max && !counts[cnt] {
				counts[cnt] = true
				run(cnt, nil)
			}
		}
	}
	for cnt := k.least[pkgRel(fn)]; cnt <= max; cnt++ {
		run(cnt, nil)
		run(cnt, all)
		for i := 0; i < cnt && cnt == max; i++ {
			run(cnt, map[int]bool{i: true})
			only := map[int]bool{}
			for j := range all {
				only[j] = j != i
			}
			run(cnt, only)
		}
	}
	return
}

// groupSizes: the numbers a decoder divides by.
func groupSizes(fn *ssa.Function) []int {
	seen := map[int]bool{}
	var out []int
	done := map[*ssa.Function]bool{}
	size := func(v ssa.Value) {
		if c, ok := v.(*ssa.Const); ok && c.Value != nil && isInteger(c.Type()) {
			if n := c.Int64(); n > 1 && n < 64 && !seen[int(n)] {
				seen[int(n)] = true
				out = append(out, int(n))
			}
		}
	}
	var rec func(*ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || done[f] || f.Pkg != fn.Pkg || f != fn && isDecoder(f) {
			return
		}
		done[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.BinOp:
					if x.Op == token.REM || x.Op == token.QUO || x.Op == token.ADD {
						size(x.Y)
					}
				case ssa.CallInstruction:
					for _, a := range x.Common().Args {
						size(a)
					}
					rec(x.Common().StaticCallee())
				}
			}
		}
	}
	rec(fn)
	return out
}

// callsSplitter: does a decoder, or a helper it uses, split its input?
func (k *crashCheck) callsSplitter(fn *ssa.Function) bool {
	var inner *types.Named
	if n := recvNamed(fn); n != nil {
		inner = k.c.embeddedComposite(n)
	}
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !strings.HasPrefix(f.String(), "") || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				cl, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := cl.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g.Signature.Recv() == nil && isSplitter(g.Signature) && strings.HasPrefix(g.String(), modPath) {
					return true
				}
				if g != fn && (!isDecoder(g) || inner != nil && recvNamed(g) == inner) && rec(g) {
					return true
				}
			}
		}
		return false
	}
	return rec(fn)
}

// componentHook models splitting and the decoders of components: they fail, or
// leave a value any part of which can be missing.
func (k *crashCheck) componentHook(root *ssa.Function, cnt int, empty map[int]bool) func(*Call) ([]Outcome, bool) {
	return func(call *Call) ([]Outcome, bool) {
		st := call.St
		failed := func(res func(e Val) Val) Outcome {
			e := st.fresh("broken", tError)
			return Outcome{Res: res(e), Do: func(s *State) bool { nonNilTerm(s, e); return true }}
		}
		if isExtract(call) {
			broken := failed(func(e Val) Val { return tuple(&Nil{types.NewSlice(tBytes)}, e) })
			if in, ok := stripConv(call.In.bytesTerm(st, call.Args[0])).(*Term); !ok || in.key != "value" {
				// something taken from the input
				r := st.fresh("elements", types.NewSlice(tBytes))
				return []Outcome{{Res: tuple(r, &Nil{tError}), Do: func(s *State) bool {
					nonNilTerm(s, r)
					return s.setIv(mk("len", tInt, r), int64(k.least[pkgRel(call.Callee)]), 1<<40)
				}}, broken}, true
			}
			return []Outcome{{Res: tuple(wireElems(call.In, st, cnt, empty), &Nil{tError})}, broken}, true
		}
		if r, ok := bufferModel(call); ok {
			return r, true
		}
		if !isDecoder(call.Callee) || call.Callee == root || call.In == nil {
			return nil, false
		}
		n := recvNamed(call.Callee)
		if n == nil {
			return nil, false
		}
		if rn := recvNamed(root); rn != nil && k.c.embeddedComposite(rn) == n {
			return nil, false
		}
		p, ok := st.resolve(call.Args[0]).(*Ptr)
		if !ok {
			return nil, false
		}
		if in, ok := stripConv(call.In.bytesTerm(st, call.Args[1])).(*Term); ok && in.key == "value" && k.callsSplitter(root) == k.callsSplitter(call.Callee) {
			return nil, false // the same elements
		}
		dec := st.fresh("decoded:"+n.Obj().Name(), n)
		return []Outcome{
			{Res: &Nil{tError}, Do: func(s *State) bool {
				if nv, ok := setPath(s.get(p.Obj), p.Path, dec); ok {
					s.set(p.Obj, nv)
				}
				return true
			}},
			failed(func(e Val) Val { return e }),
		}, true
	}
}

// bufferModel knows what a delimiter found in a buffer means.
func bufferModel(call *Call) ([]Outcome, bool) {
	switch call.Name {
	case "(*bytes.Buffer).ReadString", "(*bytes.Buffer).ReadBytes", "(*bufio.Reader).ReadString", "(*bufio.Reader).ReadBytes":
	default:
		return nil, false
	}
	st := call.St
	T := call.Sig.Results().At(0).Type()
	r, e := st.fresh("read", T), st.fresh("broken", tError)
	short := st.fresh("read", T)
	return []Outcome{
		{Res: tuple(r, &Nil{tError}), Do: func(s *State) bool { return s.setIv(mk("len", tInt, r), 1, 1<<40) }},
		{Res: tuple(short, e), Do: func(s *State) bool { nonNilTerm(s, e); return true }},
	}, true
}
