package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cli is the environment client operations are analysed in: an abstract
// dialog whose answers are described by the scenario.
type cli struct {
	c      *Ctx
	d      *dlg
	in     *Interp
	obj    int
	recv   Val
	listed []vseg              // orders the bank advertises
	acks   func(k int) [][]Val // acknowledgements of response k: code, parameters
	found  int                 // segments found per id
	faults int
	synced bool
	ver    string
	extra  func(k *Call) ([]Outcome, bool)
}

type vseg struct {
	id  string
	ver int64
}

func (c *Ctx) newCli() (*cli, *State) {
	x := &cli{c: c, found: 2, synced: true, ver: "FINTS300"}
	d, _ := c.newDlg(scenario{version: x.ver, acks: okAcks, present: 1})
	x.d = d
	st := c.P.NewState()
	return x, st
}

// client makes the client object.
func (x *cli) client(st *State) Val {
	p := x.c.P
	n := p.TypeNamed("client", "Client")
	vt := p.TypeNamed("segment", "HBCIVersion")
	o := structWith(st, n, "client.", func(f *types.Var) Val {
		if types.Identical(f.Type(), vt) {
			g := p.Pkg("segment").Members[x.ver].(*ssa.Global)
			return st.get(p.Globals[g])
		}
		if _, ok := under(f.Type()).(*types.Pointer); ok {
			t := sym("client."+f.Name(), f.Type())
			nonNilTerm(st, t)
			return t
		}
		return nil
	})
	x.obj = o
	x.recv = &Ptr{Obj: o}
	return x.recv
}

// isDialog reports whether a method belongs to the dialog types.
func (x *cli) isDialog(fn *ssa.Function) bool {
	if fn == nil || fn.Signature.Recv() == nil {
		return false
	}
	n := recvNamed(fn)
	return n != nil && (n == x.d.ptd || n == x.d.dt) && !x.wraps(fn)
}

// wraps reports whether a method of the dialog is made of the operations that
// are stood for, so that it is followed instead.
func (x *cli) wraps(fn *ssa.Function) bool {
	basic := func(f *ssa.Function) bool {
		return f != nil && (strings.HasPrefix(f.Name(), "Send") || strings.HasPrefix(f.Name(), "Sync"))
	}
	if basic(fn) {
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if k, ok := i.(ssa.CallInstruction); ok {
				f := k.Common().StaticCallee()
				if f == nil || f.Signature.Recv() == nil || !basic(f) {
					continue
				}
				if n := recvNamed(f); n != nil && (n == x.d.ptd || n == x.d.dt) {
					return true
				}
			}
		}
	}
	return false
}

func (x *cli) listVal(in *Interp, st *State, t types.Type) Val {
	vt := x.c.P.TypeNamed("segment", "VersionedSegment")
	var ps []Part
	for _, l := range x.listed {
		s := zero(vt).(*Struct)
		s = &Struct{T: s.T, F: append([]Val(nil), s.F...)}
		for i := 0; i < under(vt).(*types.Struct).NumFields(); i++ {
			switch under(vt).(*types.Struct).Field(i).Name() {
			case "ID":
				s.F[i] = cStr(l.id)
			case "Version":
				s.F[i] = cInt(l.ver)
			}
		}
		ps = append(ps, Part{V: s})
	}
	return in.newSlice(st, t, ps)
}

func (x *cli) hook(k *Call) ([]Outcome, bool) {
	in, st := k.In, k.St
	if x.extra != nil {
		if o, ok := x.extra(k); ok {
			return o, true
		}
	}
	if x.isDialog(k.Callee) {
		rs := k.Sig.Results()
		switch {
		case k.Callee.Name() == "SupportedSegments":
			return []Outcome{{Res: x.listVal(in, st, rs.At(0).Type())}}, true
		case strings.HasPrefix(k.Callee.Name(), "Send"):
			n := bump(st, "resp")
			r := mk(fmt.Sprintf("resp:%d", n), rs.At(0).Type())
			nonNilTerm(st, r)
			snap := st.snapshot()
			pos := k.Instr.Pos()
			arg := st.resolve(k.Args[1])
			name := k.Callee.Name()
			outs := []Outcome{{Res: tuple(r, &Nil{tError}), Do: func(s *State) bool {
				s.emit("order", pos, arg, cStr(name))
				s.events.St = snap
				return true
			}}}
			if noteInt(st, "faults") < x.faults {
				e := st.fresh("fault:order", tError)
				outs = append(outs, Outcome{Res: tuple(&Nil{rs.At(0).Type()}, e), Do: func(s *State) bool {
					bump(s, "faults")
					nonNilTerm(s, e)
					s.emit("order", pos, arg, cStr(name))
					s.emit("fault:order", pos, e)
					return true
				}})
			}
			return outs, true
		case rs.Len() > 0 && isError(rs.At(rs.Len()-1).Type()):
			// synchronisations
			var ok []Val
			for i := 0; i < rs.Len()-1; i++ {
				ok = append(ok, st.fresh("sync", rs.At(i).Type()))
			}
			pos := k.Instr.Pos()
			name := k.Callee.Name()
			outs := []Outcome{{Res: resOf(append(ok, &Nil{tError})), Do: func(s *State) bool {
				s.emit("sync", pos, cStr(name))
				return true
			}}}
			if noteInt(st, "faults") < x.faults {
				e := st.fresh("fault:sync", tError)
				var bad []Val
				for i := 0; i < rs.Len()-1; i++ {
					bad = append(bad, zero(rs.At(i).Type()))
				}
				outs = append(outs, Outcome{Res: resOf(append(bad, e)), Do: func(s *State) bool {
					bump(s, "faults")
					nonNilTerm(s, e)
					s.emit("sync", pos, cStr(name))
					s.emit("fault:sync", pos, e)
					return true
				}})
			}
			return outs, true
		case rs.Len() == 1 && strings.HasSuffix(k.Callee.Name(), "Version"):
			if x.synced {
				return []Outcome{{Res: cInt(5)}}, true
			}
			return []Outcome{{Res: cInt(0)}}, true
		}
	}
	if k.Callee == nil && k.Method != nil {
		if t, ok := k.Recv.(*Term); ok && strings.HasPrefix(t.Op, "resp:") {
			var no int
			fmt.Sscanf(t.Op, "resp:%d", &no)
			switch k.Method.Name() {
			case "Acknowledgements":
				return []Outcome{{Res: x.ackVal(in, st, no, k.Sig.Results().At(0).Type())}}, true
			case "FindSegments":
				id := in.deep(st, k.Args[0])
				et := under(k.Sig.Results().At(0).Type()).(*types.Slice).Elem()
				var ps []Part
				for i := 0; i < x.found; i++ {
					e := mk(fmt.Sprintf("found.%d", i), et, t, id)
					nonNilTerm(st, e)
					ps = append(ps, Part{V: e})
				}
				return []Outcome{{Res: in.newSlice(st, k.Sig.Results().At(0).Type(), ps)}}, true
			}
		}
		if t, ok := k.Recv.(*Term); ok && strings.HasPrefix(t.Op, "found") && k.Sig.Results().Len() == 2 && isError(k.Sig.Results().At(1).Type()) {
			r := mk("get:"+k.Method.Name(), k.Sig.Results().At(0).Type(), t)
			outs := []Outcome{{Res: tuple(r, &Nil{tError})}}
			if noteInt(st, "faults") < x.faults {
				e := st.fresh("fault:get", tError)
				outs = append(outs, Outcome{Res: tuple(zero(r.T), e), Do: func(s *State) bool {
					bump(s, "faults")
					nonNilTerm(s, e)
					s.emit("fault:get", k.Instr.Pos(), e)
					return true
				}})
			}
			return outs, true
		}
	}
	if k.Callee != nil && k.Callee.Name() == "UnmarshalMT940" && len(k.Args) == 2 {
		rs := k.Sig.Results()
		r := mk("statements", rs.At(0).Type(), in.bytesTerm(st, k.Args[1]))
		pos := k.Instr.Pos()
		outs := []Outcome{{Res: tuple(r, &Nil{tError}), Do: func(s *State) bool {
			s.emit("unmarshal", pos, r)
			return true
		}}}
		if noteInt(st, "faults") < x.faults {
			e := st.fresh("fault:statements", tError)
			outs = append(outs, Outcome{Res: tuple(&Nil{r.T}, e), Do: func(s *State) bool {
				bump(s, "faults")
				nonNilTerm(s, e)
				s.emit("fault:statements", pos, e)
				return true
			}})
		}
		return outs, true
	}
	return x.d.hook(k)
}

func resOf(l []Val) Val {
	if len(l) == 1 {
		return l[0]
	}
	return tuple(l...)
}

// ackVal makes the acknowledgement list of response k.
func (x *cli) ackVal(in *Interp, st *State, k int, t types.Type) Val {
	at := x.c.P.TypeNamed("domain", "Acknowledgement")
	var ps []Part
	for _, a := range x.acks(k) {
		s := zero(at).(*Struct)
		s = &Struct{T: s.T, F: append([]Val(nil), s.F...)}
		for i, f := range structFields(at) {
			switch f.Name() {
			case "Code":
				s.F[i] = a[0]
			case "Params":
				var pp []Part
				for _, v := range a[1:] {
					pp = append(pp, Part{V: v})
				}
				s.F[i] = in.newSlice(st, f.Type(), pp)
			}
		}
		ps = append(ps, Part{V: s})
	}
	return in.newSlice(st, t, ps)
}

// run analyses an operation of the client.
func (x *cli) run(st *State, method string, args ...Val) []Path {
	n := x.c.P.TypeNamed("client", "Client")
	fn := x.c.P.MethodOpt(types.NewPointer(n), method)
	recv := x.recv
	if fn == nil {
		n = x.c.P.TypeNamed("client", "AnonymousClient")
		fn = x.c.P.Method("client", "AnonymousClient", method)
		o := structWith(st, n, "anonymous.", func(f *types.Var) Val {
			if namedOf(f.Type()) == x.c.P.TypeNamed("client", "Client") {
				return x.recv
			}
			return nil
		})
		recv = &Ptr{Obj: o}
	}
	x.in = NewInterp(x.c.P)
	x.in.Hook = x.hook
	x.in.MaxFork = 3
	x.in.MaxRec = 6
	x.in.ConvFork = false
	x.d.in = x.in
	ps := x.in.Run(st, fn, append([]Val{recv}, args...)...)
	x.c.use(x.in)
	return ps
}

// order is one request handed to the dialog.
type sentOrder struct {
	ev   *Event
	segs []Val
}

// orders lists the requests of a path with their segments.
func (x *cli) orders(p Path) []*sentOrder {
	var out []*sentOrder
	for _, e := range p.St.Events() {
		if e.Kind != "order" {
			continue
		}
		o := &sentOrder{ev: e}
		st := e.St
		msg := st.resolve(e.Args[0])
		if it, ok := msg.(*Iface); ok {
			fn := x.c.P.MethodOpt(it.Dyn, "HBCISegments")
			if fn != nil {
				in := NewInterp(x.c.P)
				s2 := st.snapshot()
				s2.frames = nil
				for _, r := range in.Run(s2, fn, it.V) {
					if r.Kind == "return" {
						if parts, ok := in.parts(r.St, r.St.resolve(r.Res[0])); ok {
							o.segs = nil
							for _, pt := range parts {
								o.segs = append(o.segs, pt.V)
							}
						}
					}
				}
			}
		}
		out = append(out, o)
	}
	return out
}

// segID is the identifier of a concrete segment.
func (x *cli) segID(st *State, seg Val) string {
	s, _ := asStr(x.d.call(st, segOwner(st, seg), "ID"))
	return s
}

// texts are the possible encodings of a segment.
func (x *cli) texts(st *State, seg Val) []Path { return x.c.texts(st, seg) }

func (c *Ctx) texts(st *State, seg Val) []Path {
	seg = st.resolve(seg)
	var fn *ssa.Function
	switch y := seg.(type) {
	case *Iface:
		fn = c.P.MethodOpt(y.Dyn, "String")
		seg = y.V
	case *Ptr:
		if s, ok := expand(st.get(y.Obj)).(*Struct); ok && len(y.Path) == 0 {
			fn = c.P.MethodOpt(types.NewPointer(s.T), "String")
		}
	}
	if fn == nil {
		return nil
	}
	st = st.snapshot()
	st.frames = nil
	in := NewInterp(c.P)
	in.ConvFork = false
	in.Hook = func(k *Call) ([]Outcome, bool) {
		if k.Callee != nil && pkgRel(k.Callee) == "element" && k.Callee.Name() == "Val" {
			if t, ok := k.St.resolve(k.Args[0]).(*Term); ok {
				return []Outcome{{Res: mk("val", k.Sig.Results().At(0).Type(), t)}}, true
			}
		}
		return nil, false
	}
	var out []Path
	for _, p := range in.Run(st, fn, seg) {
		if p.Kind == "return" && len(p.Res) == 1 {
			p.Res[0] = in.deep(p.St, p.Res[0])
		}
		out = append(out, p)
	}
	return out
}

// wireFields are the data elements of an encoded segment, each a list of
// constant texts and terms; component separators are kept in the texts.
func wireFields(v Val) [][]Val {
	out := [][]Val{nil}
	add := func(x Val) { out[len(out)-1] = append(out[len(out)-1], x) }
	for _, x := range appendCat(nil, v) {
		x = stripConv(x)
		s, ok := asStr(x)
		if !ok {
			add(x)
			continue
		}
		cur := ""
		for i := 0; i < len(s); i++ {
			switch {
			case s[i] == '?' && i+1 < len(s):
				cur += s[i : i+2]
				i++
			case s[i] == '+':
				if cur != "" {
					add(cStr(cur))
				}
				cur = ""
				out = append(out, nil)
			case s[i] == '\'':
				// end of the segment
			default:
				cur += string(s[i])
			}
		}
		if cur != "" {
			add(cStr(cur))
		}
	}
	return out
}

func fieldKeyOf(l []Val) string {
	s := ""
	for _, v := range l {
		if t, ok := asStr(v); ok {
			s += t
		} else {
			s += "<" + v.Key() + ">"
		}
	}
	return s
}
