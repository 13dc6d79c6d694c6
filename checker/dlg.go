package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// codeIv is the interval an acknowledgement code ranges over.
type codeIv struct{ lo, hi int64 }

var (
	benignCode = codeIv{0, 8999}
	errorCode  = codeIv{9000, 9999}
)

// scenario fixes what the environment of a dialog operation does.
type scenario struct {
	label     string
	op        string // exported method
	version   string // exported global with the protocol version
	acks      func(resp int) []codeIv
	faults    int  // how many environment faults may be injected
	encrypted bool // responses are encrypted
	present   int  // FindSegment: 0 nothing but required, 1 everything, -1 undecided
	synced    bool // the client system id is known
	arbitrary bool // acknowledgement codes undetermined
}

// dlg analyses one operation of a dialog in one scenario.
type dlg struct {
	contents map[*Event]string
	numbers  map[*Event]int64
	leaky    map[*Event]bool
	numbered bool // follow the numbers given to the orders
	marIDs   map[*Event]string
	watch    func(*Call) // sees every call
	over     func(*Call) ([]Outcome, bool)
	recvV    Val // receiver made by the constructor
	c        *Ctx
	p        *Prog
	in       *Interp
	sc       scenario
	recv     *Term
	obj      int // dialog object
	dt       *types.Named
	sp       types.Type
	cp       types.Type
	bm       types.Type
	ptd      *types.Named
}

func (c *Ctx) implementsIface(t types.Type, rel, name string) bool {
	return t != nil && namedOf(t) == c.P.TypeNamed(rel, name)
}

// ifaceOf is the interface an invoked method belongs to.
func ifaceOf(m *types.Func) *types.Named {
	if m == nil {
		return nil
	}
	r := m.Type().(*types.Signature).Recv()
	if r == nil {
		return nil
	}
	return namedOf(r.Type())
}

func nameIs(n *types.Named, rel, name string) bool {
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == modPath+"/"+rel && n.Obj().Name() == name
}

func pkgRel(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	var p *types.Package
	if fn.Pkg != nil {
		p = fn.Pkg.Pkg
	} else if fn.Object() != nil {
		p = fn.Object().Pkg()
	} else if n := recvNamed(fn); n != nil {
		p = n.Obj().Pkg()
	} else if fn.Parent() != nil {
		return pkgRel(fn.Parent())
	}
	if p == nil {
		return ""
	}
	return strings.TrimPrefix(strings.TrimPrefix(p.Path(), modPath), "/")
}

// embedsDialog finds the embedded dialog struct of the exported dialog type.
func embeddedStruct(n *types.Named) *types.Named {
	s, ok := under(n).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if f.Embedded() {
			if e := namedOf(f.Type()); e != nil {
				if _, ok := under(e).(*types.Struct); ok {
					return e
				}
			}
		}
	}
	return nil
}

// structWith allocates a struct whose fields are symbols, except those given.
func structWith(st *State, n *types.Named, prefix string, set func(f *types.Var) Val) int {
	s := under(n).(*types.Struct)
	v := &Struct{T: n, F: make([]Val, s.NumFields())}
	for i := range v.F {
		f := s.Field(i)
		if x := set(f); x != nil {
			v.F[i] = x
			continue
		}
		t := sym(prefix+f.Name(), f.Type())
		if types.IsInterface(f.Type()) {
			nonNilTerm(st, t)
		}
		v.F[i] = t
	}
	return st.alloc(v)
}

func (c *Ctx) newDlg(sc scenario) (*dlg, *State) {
	p := c.P
	d := &dlg{c: c, p: p, sc: sc}
	d.ptd = p.TypeNamed("dialog", "PinTanDialog")
	d.dt = embeddedStruct(d.ptd)
	d.sp = p.TypeNamed("message", "SignatureProvider")
	d.cp = p.TypeNamed("message", "CryptoProvider")
	d.bm = p.TypeNamed("message", "BankMessage")
	if d.dt == nil {
		fatalf("PinTanDialog embeds no dialog struct")
	}
	st := p.NewState()
	vt := p.TypeNamed("segment", "HBCIVersion")
	var ver Val
	if g, ok := p.Pkg("segment").Members[sc.version].(*ssa.Global); ok {
		ver = st.get(p.Globals[g])
	}
	if ver == nil {
		fatalf("segment.%s not evaluated", sc.version)
	}
	d.obj = structWith(st, d.dt, "dialog.", func(f *types.Var) Val {
		if types.Identical(f.Type(), vt) {
			return ver
		}
		if f.Name() == "ClientSystemID" {
			if !sc.synced {
				return cStr("0")
			}
			t := sym("dialog.ClientSystemID", f.Type())
			st.assume(mk("==", tBool, t, cStr("0")), false)
			return t
		}
		if n := namedOf(f.Type()); n != nil && (n.Obj().Name() == "UserParameterData" || n.Obj().Name() == "BankParameterData") {
			return nil
		}
		return nil
	})
	d.recv = sym("dialog", types.NewPointer(d.ptd))
	nonNilTerm(st, d.recv)
	po := structWith(st, d.ptd, "pintan.", func(f *types.Var) Val {
		if namedOf(f.Type()) == d.dt {
			return &Ptr{Obj: d.obj}
		}
		return nil
	})
	st.syms[d.recv.key] = po
	return d, st
}

// version value for messages
func (d *dlg) versionVal(st *State) Val {
	g := d.p.Pkg("segment").Members[d.sc.version].(*ssa.Global)
	return st.get(d.p.Globals[g])
}

func noteInt(st *State, k string) int {
	n, _ := asInt(st.notes[k])
	return n
}

func bump(st *State, k string) int {
	n := noteInt(st, k) + 1
	st.notes[k] = cInt(int64(n))
	return n
}

// fallible produces a success outcome and, while the budget lasts, a fault.
func (d *dlg) fallible(k *Call, kind string, ok Val, args ...Val) []Outcome {
	pos := k.Instr.Pos()
	outs := []Outcome{{Res: ok, Do: func(s *State) bool {
		s.emit(kind, pos, args...)
		return true
	}}}
	if noteInt(k.St, "faults") < d.sc.faults {
		rs := k.Sig.Results()
		var bad []Val
		for i := 0; i < rs.Len()-1; i++ {
			bad = append(bad, zero(rs.At(i).Type()))
		}
		e := k.St.fresh("fault:"+kind, tError)
		bad = append(bad, e)
		outs = append(outs, Outcome{Res: tuple(bad...), Do: func(s *State) bool {
			bump(s, "faults")
			nonNilTerm(s, e)
			s.emit(kind, pos, args...)
			s.emit("fault:"+kind, pos, args...)
			return true
		}})
	}
	return outs
}

// ackList is the list of acknowledgements of response k.
func (d *dlg) ackList(st *State, in *Interp, k int) Val {
	at := d.p.TypeNamed("domain", "Acknowledgement")
	var ivs []codeIv
	if d.sc.acks != nil {
		ivs = d.sc.acks(k)
	} else {
		ivs = []codeIv{benignCode}
	}
	var ps []Part
	s := under(at).(*types.Struct)
	for i, iv := range ivs {
		v := &Struct{T: at, F: make([]Val, s.NumFields())}
		for j := range v.F {
			f := s.Field(j)
			t := sym(fmt.Sprintf("ack:%d:%d.%s", k, i, f.Name()), f.Type())
			if f.Name() == "Code" {
				st.setIv(t, iv.lo, iv.hi)
			}
			v.F[j] = t
		}
		ps = append(ps, Part{V: v})
	}
	return in.newSlice(st, types.NewSlice(at), ps)
}

// callRepo reports whether a callee belongs to one of the repository's packages.
func (d *dlg) hook(k *Call) ([]Outcome, bool) {
	in, st := k.In, k.St
	if d.watch != nil {
		d.watch(k)
	}
	if d.over != nil {
		if o, ok := d.over(k); ok {
			return o, true
		}
	}
	if k.Name == "(reflect.Value).IsNil" {
		if t, ok := st.resolve(k.Args[0]).(*Term); ok && t.Op == "reflectval" {
			if o, ok := st.resolve(t.A[0]).(*Term); ok && strings.HasPrefix(o.Op, "order:") {
				return []Outcome{{Res: cBool(false)}}, true
			}
		}
	}
	if k.Name == "bytes.Split" || k.Name == "bytes.SplitN" {
		// only used for tracing
		return []Outcome{{Res: in.newSlice(st, types.NewSlice(tBytes), []Part{{V: in.bytesTerm(st, k.Args[0])}})}}, true
	}
	if k.Callee == nil && k.Method != nil {
		n := ifaceOf(k.Method)
		m := k.Method.Name()
		switch {
		case nameIs(n, "message", "SignatureProvider"), nameIs(n, "message", "CryptoProvider"):
			var args []Val
			args = append(args, k.Recv)
			for _, a := range k.Args {
				if isByteSlice(valTypeOr(a, k)) {
					a = in.bytesTerm(st, a)
				}
				args = append(args, a)
			}
			if k.Sig.Results().Len() == 2 {
				r := st.fresh(strings.ToLower(m), tBytes)
				nonNilTerm(st, r)
				return d.fallible(k, m, tuple(r, &Nil{tError}), append(args, r)...), true
			}
			st.emit(m, k.Instr.Pos(), args...)
			return []Outcome{{Res: &Tuple{}}}, true
		case nameIs(n, "transport", "Transport"):
			rt := k.Sig.Results().At(0).Type()
			r := st.fresh("response", rt)
			nonNilTerm(st, r)
			return d.fallible(k, "send", tuple(r, &Nil{tError}), in.deep(st, k.Args[0])), true
		}
		if t, ok := k.Recv.(*Term); ok && strings.HasPrefix(t.Op, "resp:") {
			var no int
			fmt.Sscanf(t.Op, "resp:%d", &no)
			switch m {
			case "Acknowledgements":
				return []Outcome{{Res: d.ackList(st, in, no)}}, true
			case "MessageHeader":
				r := mk("respheader", k.Sig.Results().At(0).Type(), t)
				nonNilTerm(st, r)
				return []Outcome{{Res: r}}, true
			case "FindSegment":
				id := in.deep(st, k.Args[0])
				r := mk("found", k.Sig.Results().At(0).Type(), t, id)
				ids, _ := asStr(id)
				some := Outcome{Res: r, Do: func(s *State) bool { nonNilTerm(s, r); return true }}
				none := Outcome{Res: &Nil{r.T}}
				key := "found:" + r.key
				if v, ok := st.notes[key]; ok {
					if isTrueConst(v) {
						return []Outcome{some}, true
					}
					return []Outcome{none}, true
				}
				pres := d.sc.present
				if ids == "HISYN" {
					pres = 1
				}
				switch pres {
				case 1:
					return []Outcome{some}, true
				case 0:
					return []Outcome{none}, true
				}
				return []Outcome{
					{Res: r, Do: func(s *State) bool { s.notes[key] = cBool(true); nonNilTerm(s, r); return true }},
					{Res: &Nil{r.T}, Do: func(s *State) bool { s.notes[key] = cBool(false); return true }},
				}, true
			case "FindSegments":
				id := in.deep(st, k.Args[0])
				if d.sc.present == 0 {
					return []Outcome{{Res: &Nil{k.Sig.Results().At(0).Type()}}}, true
				}
				et := under(k.Sig.Results().At(0).Type()).(*types.Slice).Elem()
				var ps []Part
				for i := 0; i < 2; i++ {
					e := mk(fmt.Sprintf("found.%d", i), et, t, id)
					nonNilTerm(st, e)
					ps = append(ps, Part{V: e})
				}
				return []Outcome{{Res: in.newSlice(st, k.Sig.Results().At(0).Type(), ps)}}, true
			default:
				if k.Sig.Results().Len() == 1 {
					r := mk("resp."+m, k.Sig.Results().At(0).Type(), append([]Val{t}, deepAll(in, st, k.Args)...)...)
					if _, ok := under(r.T).(*types.Slice); ok {
						// a list of two elements stands for the list
						et := under(r.T).(*types.Slice).Elem()
						var ps []Part
						for i := 0; i < 2; i++ {
							ps = append(ps, Part{V: mk(fmt.Sprintf("resp.%s.%d", m, i), et, t)})
						}
						return []Outcome{{Res: in.newSlice(st, r.T, ps)}}, true
					}
					return []Outcome{{Res: r}}, true
				}
			}
		}
		if t, ok := k.Recv.(*Term); ok && strings.HasPrefix(t.Op, "order:") {
			switch m {
			case "MarshalHBCI":
				return d.marshal(k, t), true
			case "String":
				return d.marshal(k, t), true
			case "SetPosition":
				st.emit("position", k.Instr.Pos(), t)
				if d.numbered {
					return []Outcome{{Res: &Tuple{}, Do: func(s *State) bool {
						in := NewInterp(d.p)
						cl, ok := s.resolve(k.Args[0]).(*Closure)
						if !ok {
							return true
						}
						ps := in.RunClosure(s.snapshot(), cl)
						if len(ps) != 1 || ps[0].Kind != "return" || len(ps[0].Res) != 1 {
							return true
						}
						s.heap, s.next = ps[0].St.heap, ps[0].St.next
						s.notes["position:"+t.key] = ps[0].Res[0]
						return true
					}}}, true
				}
				return []Outcome{{Res: &Tuple{}}}, true
			}
		}
		if t, ok := k.Recv.(*Term); ok && (strings.HasPrefix(t.Op, "found") || strings.HasPrefix(t.Op, "dyn")) && k.Sig.Results().Len() == 1 {
			args := append([]Val{t}, deepAll(in, st, k.Args)...)
			rt := k.Sig.Results().At(0).Type()
			r := mk("get:"+m, rt, args...)
			if sl, ok := under(rt).(*types.Slice); ok && !isByteSlice(rt) {
				var ps []Part
				for i := 0; i < 2; i++ {
					ps = append(ps, Part{V: mk(fmt.Sprintf("get:%s.%d", m, i), sl.Elem(), args...)})
				}
				return []Outcome{{Res: in.newSlice(st, rt, ps)}}, true
			}
			if isNillable(rt) {
				nonNilTerm(st, r)
			}
			return []Outcome{{Res: r}}, true
		}
		return nil, false
	}
	if k.Callee == nil {
		return nil, false
	}
	rel := pkgRel(k.Callee)
	rs := k.Sig.Results()
	switch {
	case rel == "message" && rs.Len() > 0 && len(k.Args) > 0 && d.ofResponse(st, k.Args[0]):
		r := st.fresh("tr."+k.Callee.Name(), rs.At(0).Type())
		if isNillable(r.T) {
			nonNilTerm(st, r)
		}
		if rs.Len() == 2 && isError(rs.At(1).Type()) {
			return d.fallible(k, "read", tuple(r, &Nil{tError})), true
		}
		return []Outcome{{Res: r}}, true
	case strings.HasPrefix(rel, "transport"):
		if rs.Len() == 2 && isError(rs.At(1).Type()) {
			r := st.fresh("tr."+k.Callee.Name(), rs.At(0).Type())
			if isNillable(r.T) {
				nonNilTerm(st, r)
			}
			return d.fallible(k, "read", tuple(r, &Nil{tError})), true
		}
		if rs.Len() == 1 && isBool(rs.At(0).Type()) {
			return []Outcome{{Res: cBool(d.sc.encrypted)}}, true
		}
		if rs.Len() == 1 {
			r := st.fresh("tr."+k.Callee.Name(), rs.At(0).Type())
			if isNillable(r.T) {
				nonNilTerm(st, r)
			}
			return []Outcome{{Res: r}}, true
		}
	case rel == "message" && rs.Len() == 2 && isError(rs.At(1).Type()) && types.Identical(rs.At(0).Type(), d.bm):
		n := bump(st, "resp")
		r := mk(fmt.Sprintf("resp:%d", n), d.bm)
		nonNilTerm(st, r)
		return d.fallible(k, "resp", tuple(r, &Nil{tError}), r), true
	case rel == "segment" && k.Callee.Name() == "UnmarshalHBCI" && rs.Len() == 1:
		return d.fallible(k, "unmarshal", &Nil{tError}), true
	case rel == "segment" && (k.Callee.Name() == "MarshalHBCI" || k.Callee.Name() == "String") && k.Sig.Recv() != nil && len(k.Args) == 1:
		return d.marshal(k, k.Args[0]), true
	case rel == "element" && k.Callee.Name() == "Val" && len(k.Args) == 1 && rs.Len() == 1:
		if t, ok := st.resolve(k.Args[0]).(*Term); ok {
			return []Outcome{{Res: mk("val", rs.At(0).Type(), t)}}, true
		}
	case rel == "element" && k.Callee.Name() == "GroupDataElements" && len(k.Args) == 1 && rs.Len() == 1:
		if t, ok := st.resolve(k.Args[0]).(*Term); ok {
			et := under(rs.At(0).Type()).(*types.Slice).Elem()
			var ps []Part
			for i := 0; i < 2; i++ {
				e := mk(fmt.Sprintf("group.%d", i), et, t)
				nonNilTerm(st, e)
				ps = append(ps, Part{V: e})
			}
			return []Outcome{{Res: in.newSlice(st, rs.At(0).Type(), ps)}}, true
		}
	case rel == "segment" || rel == "element":
		// accessors of decoded segments
		if k.Sig.Recv() != nil && len(k.Args) == 1 && rs.Len() == 1 {
			if t, ok := st.resolve(k.Args[0]).(*Term); ok && underSeg(t) {
				r := mk("get:"+k.Callee.Name(), rs.At(0).Type(), t)
				if sl, ok := under(r.T).(*types.Slice); ok && !isByteSlice(r.T) {
					var ps []Part
					for i := 0; i < 2; i++ {
						ps = append(ps, Part{V: mk(fmt.Sprintf("get:%s.%d", k.Callee.Name(), i), sl.Elem(), t)})
					}
					return []Outcome{{Res: in.newSlice(st, r.T, ps)}}, true
				}
				if isNillable(r.T) {
					nonNilTerm(st, r)
				}
				return []Outcome{{Res: r}}, true
			}
		}
	}
	return nil, false
}

// ofResponse reports whether a receiver is part of a raw response.
func (d *dlg) ofResponse(st *State, v Val) bool {
	t, ok := st.resolve(v).(*Term)
	if !ok {
		return false
	}
	r := false
	walk(t, func(v Val) bool {
		if x, ok := v.(*Term); ok && (strings.HasPrefix(x.Op, "tr.") || strings.HasPrefix(x.Op, "response#")) {
			r = true
		}
		return !r
	})
	return r
}

// underSeg reports whether the term stands for a decoded segment.
func underSeg(t *Term) bool {
	r := false
	walk(t, func(v Val) bool {
		if x, ok := v.(*Term); ok && (strings.HasPrefix(x.Op, "found") || strings.HasPrefix(x.Op, "resp:") || strings.HasPrefix(x.Op, "group.")) {
			r = true
		}
		return !r
	})
	return r
}

func deepAll(in *Interp, st *State, vs []Val) []Val {
	var r []Val
	for _, v := range vs {
		r = append(r, in.deep(st, v))
	}
	return r
}

func valTypeOr(v Val, k *Call) types.Type {
	if t := valType(v); t != nil {
		return t
	}
	return tInt
}

// marshal is the encoding of one segment: an opaque byte string tagged with the event.
func (d *dlg) marshal(k *Call, seg Val) []Outcome {
	st := k.St
	rt := k.Sig.Results().At(0).Type()
	st.next++
	r := mk(fmt.Sprintf("mar#%d", st.next), rt)
	nonNilTerm(st, r)
	st.emit("mar", k.Instr.Pos(), r, segOwner(st, seg))
	if k.Sig.Results().Len() == 2 {
		return []Outcome{{Res: tuple(r, &Nil{tError})}}
	}
	return []Outcome{{Res: r}}
}

// segOwner finds the segment a generic segment part belongs to.
func segOwner(st *State, v Val) Val {
	v = st.resolve(v)
	if i, ok := v.(*Iface); ok {
		v = st.resolve(i.V)
	}
	p, ok := v.(*Ptr)
	if !ok {
		return v
	}
	cur, _ := getPath(st.get(p.Obj), p.Path)
	s, ok := expand(cur).(*Struct)
	if !ok {
		return v
	}
	ts, ok := under(s.T).(*types.Struct)
	if !ok {
		return v
	}
	if ts.NumFields() == 1 && ts.Field(0).Embedded() && types.IsInterface(ts.Field(0).Type()) {
		// a wrapper around one of several versions
		if ic, ok := st.resolve(s.F[0]).(*Iface); ok {
			return segOwner(st, ic)
		}
	}
	for i := 0; i < ts.NumFields(); i++ {
		if ts.Field(i).Embedded() || !types.IsInterface(ts.Field(i).Type()) {
			continue
		}
		if ic, ok := st.resolve(s.F[i]).(*Iface); ok {
			if q, ok := st.resolve(ic.V).(*Ptr); ok && q.Obj != p.Obj {
				return q
			}
		}
	}
	return v
}

// segMar describes one marshaled segment.
type segMar struct {
	id  string
	seg Val
	ev  *Event
}

// run analyses the operation.
func (d *dlg) run(st *State, args ...Val) []Path {
	fn := d.p.MethodOpt(types.NewPointer(d.ptd), d.sc.op)
	if fn == nil {
		fatalf("PinTanDialog has no method %s", d.sc.op)
	}
	d.in = NewInterp(d.p)
	d.in.Hook = d.hook
	d.in.MaxFork = 1
	if d.sc.present != 0 {
		d.in.MaxFork = 2
	}
	d.in.ConvFork = false
	paths := d.in.Run(st, fn, append([]Val{d.recv}, args...)...)
	d.c.use(d.in)
	return paths
}

// order is an HBCIMessage with the given symbolic orders.
func (d *dlg) order(st *State, orders ...Val) Val {
	fn := d.p.Func("message", "NewHBCIMessage")
	cs := d.p.TypeNamed("segment", "ClientSegment")
	var ps []Part
	for _, o := range orders {
		ps = append(ps, Part{V: o})
	}
	in := NewInterp(d.p)
	sl := in.newSlice(st, types.NewSlice(cs), ps)
	paths := in.Run(st, fn, d.versionVal(st), sl)
	if len(paths) != 1 || paths[0].Kind != "return" {
		fatalf("NewHBCIMessage not analysable")
	}
	// the state is shared with the run
	st.heap, st.next, st.syms, st.facts = paths[0].St.heap, paths[0].St.next, paths[0].St.syms, paths[0].St.facts
	st.frames = nil
	return paths[0].Res[0]
}

// call evaluates a small accessor in a snapshot.
func (d *dlg) call(st *State, v Val, method string) Val {
	if v == nil {
		return nil
	}
	st = st.snapshot()
	v = st.resolve(v)
	var fn *ssa.Function
	var recv Val = v
	switch x := v.(type) {
	case *Iface:
		fn = d.p.MethodOpt(x.Dyn, method)
		recv = x.V
	case *Ptr:
		cur, _ := getPath(st.get(x.Obj), x.Path)
		if t := valType(cur); t != nil {
			fn = d.p.MethodOpt(types.NewPointer(t), method)
		}
	case *Term:
		if types.IsInterface(x.T) {
			return mk("m:"+method, tString, x)
		}
		fn = d.p.MethodOpt(x.T, method)
	}
	if fn == nil {
		return nil
	}
	in := NewInterp(d.p)
	in.ConvFork = false
	in.Hook = func(k *Call) ([]Outcome, bool) {
		if k.Callee != nil && pkgRel(k.Callee) == "element" && k.Callee.Name() == "Val" {
			if t, ok := k.St.resolve(k.Args[0]).(*Term); ok {
				return []Outcome{{Res: mk("val", k.Sig.Results().At(0).Type(), t)}}, true
			}
		}
		return nil, false
	}
	ps := in.Run(st, fn, recv)
	if len(ps) != 1 || ps[0].Kind != "return" || len(ps[0].Res) == 0 {
		return nil
	}
	return in.deep(ps[0].St, ps[0].Res[0])
}

// field reads a field of a segment object in a snapshot, through embedded parts.
func (d *dlg) field(st *State, v Val, name string) Val {
	v = st.resolve(v)
	if i, ok := v.(*Iface); ok {
		v = st.resolve(i.V)
	}
	p, ok := v.(*Ptr)
	if !ok {
		return nil
	}
	cur, ok := getPath(st.get(p.Obj), p.Path)
	if !ok {
		return nil
	}
	s, ok := expand(cur).(*Struct)
	if !ok {
		return nil
	}
	ts, ok := under(s.T).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < ts.NumFields(); i++ {
		if ts.Field(i).Name() == name {
			return s.F[i]
		}
	}
	for i := 0; i < ts.NumFields(); i++ {
		if ts.Field(i).Embedded() {
			if r := d.field(st, s.F[i], name); r != nil {
				return r
			}
		}
	}
	return nil
}

// fieldVal evaluates Val of an element field.
func (d *dlg) fieldVal(st *State, seg Val, name string) Val {
	f := d.field(st, seg, name)
	if f == nil {
		return nil
	}
	if isNil(st.resolve(f)) {
		return &Nil{}
	}
	return d.call(st, f, "Val")
}

// index of marshal events of a path
func (d *dlg) mars(p Path) map[string]*segMar {
	m := map[string]*segMar{}
	ids := map[string]string{}
	for _, e := range p.St.Events() {
		if e.Kind != "mar" {
			continue
		}
		sm := &segMar{seg: e.Args[1], ev: e}
		if t, ok := e.Args[1].(*Term); ok && strings.HasPrefix(t.Op, "order:") {
			sm.id = t.Op
		} else {
			k := e.Args[1].Key()
			if id, ok := ids[k]; ok {
				sm.id = id
			} else if id, ok := d.marIDs[e]; ok {
				sm.id = id
			} else {
				sm.id, _ = asStr(d.call(e.St, e.Args[1], "ID"))
				if d.marIDs == nil {
					d.marIDs = map[*Event]string{}
				}
				d.marIDs[e] = sm.id
				if sm.id != "" {
					ids[k] = sm.id
				}
			}
		}
		m[e.Args[0].(*Term).Op] = sm
	}
	return m
}

// pieces lists the marshaled segments in a byte value in order; other content is reported.
func pieces(v Val) (ops []string, extra string) {
	walk(v, func(x Val) bool {
		switch t := x.(type) {
		case *Term:
			if strings.HasPrefix(t.Op, "mar#") || strings.HasPrefix(t.Op, "encrypt#") || strings.HasPrefix(t.Op, "sign#") {
				ops = append(ops, t.Op)
				return false
			}
		}
		return true
	})
	return
}

// message is one message handed to the transport.
type sentMsg struct {
	ev        *Event
	segs      []*segMar // plain segments of the envelope
	inner     []*segMar // segments of the encrypted payload
	encOp     string
	enc       *Event // Encrypt event
	ids       []string
	innerIDs  []string
	badData   string
	bodyKnown bool
}

func (m *sentMsg) all() []*segMar { return append(append([]*segMar(nil), m.segs...), m.inner...) }
func (m *sentMsg) has(id string) *segMar {
	for _, s := range m.all() {
		if s.id == id {
			return s
		}
	}
	return nil
}

func (m *sentMsg) String() string {
	return fmt.Sprintf("%v{%v}", m.ids, m.innerIDs)
}

// bodyOf finds the value of the request body.
func bodyOf(v Val) Val {
	var body Val
	walk(v, func(x Val) bool {
		if t, ok := x.(*Term); ok && len(t.A) > 0 && (strings.HasSuffix(t.Op, "NewReader") || strings.HasSuffix(t.Op, "NewBuffer") || strings.HasSuffix(t.Op, "NewBufferString")) {
			body = t.A[0]
			return false
		}
		return true
	})
	if body == nil {
		return v
	}
	return body
}

// sent lists the messages of a path.
func (d *dlg) sent(p Path) []*sentMsg {
	mars := d.mars(p)
	encs := map[string]*Event{}
	var out []*sentMsg
	for _, e := range p.St.Events() {
		switch e.Kind {
		case "Encrypt":
			encs[e.Args[len(e.Args)-1].(*Term).Op] = e
		case "send":
			m := &sentMsg{ev: e}
			ops, _ := pieces(bodyOf(e.Args[0]))
			for _, op := range ops {
				s := mars[op]
				if s == nil {
					m.ids = append(m.ids, op)
					continue
				}
				m.segs = append(m.segs, s)
				m.ids = append(m.ids, s.id)
			}
			for _, s := range m.segs {
				if s.id != "HNVSD" {
					continue
				}
				f := d.field(s.ev.St, s.seg, "Data")
				if f == nil {
					m.badData = "no data field"
					continue
				}
				dv := d.call(s.ev.St, f, "Val")
				if t, ok := stripConv(dv).(*Term); ok && strings.HasPrefix(t.Op, "encrypt#") {
					m.encOp = t.Op
				} else {
					m.badData = "data is " + cut(keyOf(dv))
				}
			}
			if m.encOp != "" {
				m.enc = encs[m.encOp]
				if m.enc != nil {
					ops, _ := pieces(m.enc.Args[1])
					for _, op := range ops {
						s := mars[op]
						if s == nil {
							m.innerIDs = append(m.innerIDs, op)
							continue
						}
						m.inner = append(m.inner, s)
						m.innerIDs = append(m.innerIDs, s.id)
					}
				}
			}
			out = append(out, m)
		}
	}
	return out
}

func keyOf(v Val) string {
	if v == nil {
		return "?"
	}
	return v.Key()
}

func structFields(n *types.Named) []*types.Var {
	s := under(n).(*types.Struct)
	var r []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		r = append(r, s.Field(i))
	}
	return r
}
