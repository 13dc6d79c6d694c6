package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	checks["P01"] = checkP01
	checks["P02"] = checkP02
	checks["P03"] = checkP03
	checks["P04"] = checkP04
}

var dialogVersions = []string{"FINTS300", "HBCI220"}

// dialogOps are the operations of a dialog with the number of their responses.
var dialogOps = []struct {
	name  string
	order bool
	auth  bool
	roles []string
}{
	{"SendMessage", true, true, []string{"opening", "order", "end"}},
	{"SyncUserParameterData", false, true, []string{"opening", "end"}},
	{"SyncClientSystemID", false, true, []string{"synchronisation", "end"}},
	{"SendAnonymousMessage", true, false, []string{"opening", "order", "end"}},
}

// checkOps makes sure every dialog operation is covered.
func (c *Ctx) checkOps() {
	n := c.P.TypeNamed("dialog", "PinTanDialog")
	ms := types.NewMethodSet(types.NewPointer(n))
	known := map[string]bool{}
	for _, o := range dialogOps {
		known[o.name] = true
	}
	for i := 0; i < ms.Len(); i++ {
		m := ms.At(i).Obj()
		s := m.Type().(*types.Signature)
		if !m.Exported() || s.Results().Len() == 0 || !isError(s.Results().At(s.Results().Len()-1).Type()) {
			continue
		}
		if !known[m.Name()] {
			c.note("dialog operation %s is not in the list of analysed operations", m.Name())
		}
	}
}

// operation runs one operation with two orders and an absent one.
func (c *Ctx) operation(sc scenario) (*dlg, []Path) {
	d, st := c.newDlg(sc)
	var args []Val
	for _, o := range dialogOps {
		if o.name == sc.op && o.order {
			cs := c.P.TypeNamed("segment", "ClientSegment")
			o1, o2 := sym("order:1", cs), sym("order:2", cs)
			nonNilTerm(st, o1)
			nonNilTerm(st, o2)
			nt := types.NewPointer(c.P.TypeNamed("segment", "TanRequestSegment"))
			args = append(args, d.order(st, o1, &Iface{Dyn: nt, V: &Nil{T: nt}}, o2))
		}
	}
	ps := d.run(st, args...)
	if d.in.Exhausted {
		c.note("%s: path budget exhausted", sc.label)
	}
	return d, ps
}

func errOf(p Path) Val {
	if len(p.Res) == 0 {
		return nil
	}
	return p.St.resolve(p.Res[len(p.Res)-1])
}

func (p Path) failed() bool  { e := errOf(p); return e != nil && p.St.nilness(e) == 2 }
func (p Path) success() bool { e := errOf(p); return e != nil && p.St.nilness(e) == 1 }

var okCode = codeIv{20, 20}

func okAcks(int) []codeIv { return []codeIv{okCode} }

func checkP01(c *Ctx) {
	c.Rule("surface", "with an acknowledgement code in [9000,9999] at the given place of the given response, and codes in [0,8999] elsewhere, every path of the operation returns a non-nil error", 60)
	c.Rule("benign", "with codes in [0,8999] only and no other failure every path returns a nil error", 8)
	c.Rule("collect", "the acknowledgement list of a decoded response contains the acknowledgements of every message and segment acknowledgement segment", 4)
	c.Rule("decode", "decoding an acknowledgement segment keeps one acknowledgement per component group with the code of that group", 2)
	c.Assume = append(c.Assume, "acknowledgement codes are at most four digits", "lists of up to three acknowledgements stand for longer ones")
	c.checkOps()
	for _, v := range dialogVersions {
		for _, o := range dialogOps {
			for ri, role := range o.roles {
				if role == "end" {
					continue
				}
				for n := 1; n <= 3; n++ {
					for pos := 0; pos < n; pos++ {
						sc := scenario{op: o.name, version: v, encrypted: (n+pos)%2 == 0 && o.auth, synced: true}
						sc.acks = func(resp int) []codeIv {
							if resp != ri+1 {
								return []codeIv{okCode}
							}
							var l []codeIv
							for i := 0; i < n; i++ {
								if i == pos {
									l = append(l, errorCode)
								} else {
									l = append(l, benignCode)
								}
							}
							return l
						}
						sc.label = fmt.Sprintf("%s %s, %s response, error code at %d of %d", o.name, v, role, pos+1, n)
						c.judgeSurface(sc)
					}
				}
			}
		}
		// the synchronisation in front of an order of an unsynchronised dialog
		for ri := 0; ri < 2; ri++ {
			for _, op := range []string{"SendMessage", "SyncUserParameterData"} {
				r := ri*2 + 1
				sc := scenario{op: op, version: v, encrypted: true, synced: false}
				sc.acks = func(resp int) []codeIv {
					if resp == r {
						return []codeIv{okCode, errorCode}
					}
					return []codeIv{okCode}
				}
				sc.label = fmt.Sprintf("%s %s without client system id, response %d", op, v, r)
				c.judgeSurface(sc)
			}
		}
		for _, o := range dialogOps {
			for _, enc := range []bool{true, false} {
				if enc && !o.auth {
					continue
				}
				sc := scenario{op: o.name, version: v, encrypted: enc, synced: true, label: fmt.Sprintf("%s %s encrypted=%v", o.name, v, enc)}
				sc.acks = func(int) []codeIv { return []codeIv{benignCode, benignCode} }
				_, ps := c.operation(sc)
				nret := 0
				bad := ""
				for _, p := range ps {
					if p.Kind == "return" {
						nret++
						if !p.success() {
							bad = p.Where + " returns " + cut(keyOf(errOf(p)))
						}
					} else if p.Kind == "panic" {
						bad = "panic at " + p.Where
					}
				}
				c.Check("benign", sc.label, bad == "" && nret > 0, "dialog", "fails without an error acknowledgement: %s (%d paths)", bad, nret)
			}
		}
	}
	c.checkCollect()
}

func (c *Ctx) judgeSurface(sc scenario) {
	_, ps := c.operation(sc)
	nret := 0
	bad := ""
	where := "dialog"
	for _, p := range ps {
		if p.Kind != "return" {
			continue
		}
		nret++
		if !p.failed() {
			bad = "a path returns " + cut(keyOf(errOf(p)))
			where = p.Where
		}
	}
	c.Check("surface", sc.label, bad == "" && nret > 0, where, "%s (%d returning paths)", bad, nret)
}

// checkCollect: decoding of a response collects every acknowledgement.
func (c *Ctx) checkCollect() {
	p := c.P
	segT := p.TypeNamed("segment", "Segment")
	mk2 := func(st *State, n *types.Named, tag string) Val {
		ackT := p.TypeNamed("element", "AcknowledgementDataElement")
		o := structWith(st, n, tag+".", func(f *types.Var) Val {
			if sl, ok := under(f.Type()).(*types.Slice); ok && namedOf(sl.Elem()) == ackT {
				var ps []Part
				for i := 0; i < 2; i++ {
					t := sym(fmt.Sprintf("%s.ack%d", tag, i), sl.Elem())
					nonNilTerm(st, t)
					ps = append(ps, Part{V: t})
				}
				return NewInterp(p).newSlice(st, f.Type(), ps)
			}
			return nil
		})
		return &Iface{Dyn: types.NewPointer(n), V: &Ptr{Obj: o}}
	}
	ids := map[string]string{"HIRMG": "MessageAcknowledgement", "HIRMS": "SegmentAcknowledgement"}
	st := p.NewState()
	segs := map[string][]Val{}
	for _, id := range []string{"HIRMG", "HIRMS"} {
		n := p.TypeNamed("segment", ids[id])
		for i := 0; i < 2; i++ {
			segs[id] = append(segs[id], mk2(st, n, fmt.Sprintf("%s%d", id, i)))
		}
	}
	in := NewInterp(p)
	in.ConvFork = false
	in.MaxFork = 1
	uT := p.TypeNamed("message", "Unmarshaler")
	in.Hook = func(k *Call) ([]Outcome, bool) {
		if k.Callee == nil {
			return nil, false
		}
		if recvNamed(k.Callee) == uT {
			rs := k.Sig.Results()
			id := ""
			if len(k.Args) > 1 {
				id, _ = asStr(in.deep(k.St, k.Args[1]))
			}
			if rs.Len() == 1 {
				rt := rs.At(0).Type()
				if isError(rt) {
					return []Outcome{{Res: &Nil{tError}}}, true
				}
				if types.Identical(rt, segT) {
					if l := segs[id]; len(l) > 0 {
						return []Outcome{{Res: l[0]}}, true
					}
					return []Outcome{{Res: &Nil{rt}}}, true
				}
				if sl, ok := under(rt).(*types.Slice); ok && types.Identical(sl.Elem(), segT) {
					var ps []Part
					l := segs[id]
					if id == "" {
						l = append(append([]Val(nil), segs["HIRMS"]...), segs["HIRMG"]...)
					}
					for _, s := range l {
						ps = append(ps, Part{V: s})
					}
					return []Outcome{{Res: in.newSlice(k.St, rt, ps)}}, true
				}
			}
			return in.model(k), true
		}
		if pkgRel(k.Callee) == "element" && k.Callee.Name() == "Val" && len(k.Args) == 1 {
			if t, ok := k.St.resolve(k.Args[0]).(*Term); ok {
				return []Outcome{{Res: mk("val", k.Sig.Results().At(0).Type(), t)}}, true
			}
		}
		if pkgRel(k.Callee) == "segment" && k.Callee.Name() == "ReferencingMessage" {
			return []Outcome{{Res: sym("refmsg", k.Sig.Results().At(0).Type())}}, true
		}
		return nil, false
	}
	fn := p.Func("message", "NewDecryptedMessage")
	args := symArgs(st, fn)
	ps := in.Run(st, fn, args...)
	c.use(in)
	nret := 0
	miss := map[string]string{}
	for _, pa := range ps {
		if pa.Kind != "return" || !pa.success() {
			if pa.Kind == "panic" {
				miss["HIRMG"] = "panic at " + pa.Where
			}
			continue
		}
		nret++
		st2 := pa.St.snapshot()
		st2.frames = nil
		ic, ok := st2.resolve(pa.Res[0]).(*Iface)
		if !ok {
			miss["HIRMG"] = "no message object is returned"
			continue
		}
		af := p.MethodOpt(ic.Dyn, "Acknowledgements")
		in2 := NewInterp(p)
		in2.Hook = in.Hook
		in2.ConvFork = false
		aps := in2.Run(st2, af, ic.V)
		for _, ap := range aps {
			if ap.Kind != "return" {
				continue
			}
			txt := in2.deep(ap.St, ap.Res[0])
			has := map[string]bool{}
			walk(txt, func(v Val) bool {
				if t, ok := v.(*Term); ok {
					if i := strings.Index(t.Op, ".ack"); i > 0 && strings.HasPrefix(t.Op, "HIRM") {
						has[t.Op] = true
					}
				}
				return true
			})
			for _, id := range []string{"HIRMG", "HIRMS"} {
				for i := 0; i < 2; i++ {
					for j := 0; j < 2; j++ {
						k := fmt.Sprintf("%s%d.ack%d", id, i, j)
						if !has[k] {
							miss[fmt.Sprintf("%s%d", id, i)] = fmt.Sprintf("acknowledgement %d of %s segment %d is missing", j+1, id, i+1)
						}
					}
				}
			}
		}
	}
	for _, id := range []string{"HIRMG", "HIRMS"} {
		for i := 0; i < 2; i++ {
			k := fmt.Sprintf("%s%d", id, i)
			m := miss[k]
			if m == "" {
				m = miss["HIRMG"]
			}
			c.Check("collect", fmt.Sprintf("%s segment %d", id, i+1), m == "" && nret > 0, p.Pos(fn.Pos()), "%s (%d accepting paths)", m, nret)
		}
	}
	for _, id := range []string{"HIRMG", "HIRMS"} {
		n := p.TypeNamed("segment", ids[id])
		f := p.Method("segment", ids[id], "UnmarshalHBCI")
		r := c.runDecode(n, f, 4, nil, nil)
		bad := ""
		nret := 0
		for _, pa := range r.paths {
			if pa.Kind != "return" || !pa.success() {
				continue
			}
			nret++
			af := p.Method("segment", ids[id], "Acknowledgements")
			in2 := NewInterp(p)
			in2.ConvFork = false
			in2.Hook = in.Hook
			for _, ap := range in2.Run(pa.St.snapshot(), af, r.recv) {
				if ap.Kind != "return" {
					bad = ap.Kind + " " + ap.Where
					continue
				}
				parts, ok := in2.parts(ap.St, ap.Res[0])
				if !ok || len(parts) != 3 {
					bad = fmt.Sprintf("%d acknowledgements for three component groups", len(parts))
					continue
				}
				for i, pt := range parts {
					m := mentions(in2.deep(ap.St, pt.V))
					if fmt.Sprint(m) == "[0]" || len(m) == 0 {
						bad = fmt.Sprintf("acknowledgement %d does not come from component %d (%s)", i+1, i+1, cut(in2.deep(ap.St, pt.V).Key()))
					}
					for _, x := range m {
						if x != i+1 && x != 0 {
							bad = fmt.Sprintf("acknowledgement %d comes from component %d", i+1, x)
						}
					}
				}
			}
		}
		c.Check("decode", id, bad == "" && nret > 0, p.Pos(f.Pos()), "%s (%d paths)", bad, nret)
	}
}
