package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() { checks["P27"] = checkP27 }

// mentionsOp reports whether a term whose operator has the prefix occurs in v.
func mentionsOp(v Val, prefix string) bool {
	f := false
	if v == nil {
		return false
	}
	walk(v, func(x Val) bool {
		if t, ok := x.(*Term); ok && strings.HasPrefix(t.Op, prefix) {
			f = true
		}
		return !f
	})
	return f
}

// fromSegment reports whether v was read from the segment id found in response k.
func fromSegment(v Val, k int, id string) bool {
	f := false
	if v == nil {
		return false
	}
	walk(v, func(x Val) bool {
		t, ok := x.(*Term)
		if !ok || !strings.HasPrefix(t.Op, "found") || len(t.A) != 2 {
			return true
		}
		r, ok := t.A[0].(*Term)
		s, ok2 := asStr(t.A[1])
		if ok && ok2 && r.Op == fmt.Sprintf("resp:%d", k) && (id == "" || s == id) {
			f = true
		}
		return true
	})
	return f
}

// observe calls an accessor of the dialog.
func (d *dlg) observe(st *State, recv Val, method string) Val {
	st = st.snapshot()
	st.frames = nil
	fn := d.p.MethodOpt(types.NewPointer(d.ptd), method)
	if fn == nil {
		return nil
	}
	in := NewInterp(d.p)
	in.ConvFork = false
	ps := in.Run(st, fn, recv)
	if len(ps) != 1 || ps[0].Kind != "return" || len(ps[0].Res) != 1 {
		return nil
	}
	return in.deep(ps[0].St, ps[0].Res[0])
}

// role tells what a field of the dialog stores, by its type.
func (d *dlg) role(field string) string {
	for _, f := range structFields(d.dt) {
		if f.Name() != field {
			continue
		}
		t := f.Type()
		if sl, ok := under(t).(*types.Slice); ok {
			switch n := namedOf(sl.Elem()); {
			case nameIs(n, "domain", "AccountInformation"):
				return "accounts"
			case nameIs(n, "segment", "VersionedSegment"):
				return "orders"
			}
			return ""
		}
		switch n := namedOf(t); {
		case n == nil:
		case n.Obj().Name() == "BankParameterData":
			return "bank"
		case n.Obj().Name() == "UserParameterData":
			return "user"
		}
	}
	return ""
}

// state lists the fields of the dialog object.
func (d *dlg) state(st *State) map[string]Val {
	m := map[string]Val{}
	in := NewInterp(d.p)
	in.DeepN = 10
	for i, f := range structFields(d.dt) {
		if v, ok := getPath(st.get(d.obj), []int{i}); ok {
			m[f.Name()] = in.deep(st, v)
		}
	}
	return m
}

func checkP27(c *Ctx) {
	c.Rule("bank-version", "after an accepted opening response with bank parameter data the stored version is the one of that data", 4)
	c.Rule("user-version", "after an accepted opening response with user parameter data the stored version is the one of that data", 4)
	c.Rule("orders", "after an accepted opening response with bank parameter data the supported orders are exactly those the response lists, in their order, each with its parameters entry", 4)
	c.Rule("accounts", "after an accepted opening response with account information the accounts are exactly those of the response, in their order", 4)
	c.Rule("tan", "every order listed as a PIN/TAN order is stored with its own TAN flag", 4)
	c.Rule("announced", "the next dialog announces the versions adopted last and names the user of the user parameter data", 4)
	c.Rule("rejected", "after a response with an error code no parameter data of the dialog stems from it", 8)
	c.Rule("absent", "parameter data the response does not contain stays as it was", 8)
	c.Rule("listed", "the orders a decoded message lists are the parameter segments of its segments, each with its own id and version, in their order", 1)
	c.Assume = append(c.Assume, "two accounts, two listed orders and two PIN/TAN orders stand for longer lists")
	for _, v := range dialogVersions {
		for _, o := range dialogOps {
			base := scenario{op: o.name, version: v, encrypted: o.auth, synced: true, present: 1, acks: okAcks}
			base.label = o.name + " " + v
			d, ps := c.operation(base)
			seen := 0
			for _, p := range ps {
				if p.Kind != "return" || !p.success() {
					continue
				}
				seen++
				c.judgeAdopted(d, p, base.label, 1)
			}
			if seen == 0 {
				c.Check("bank-version", base.label, false, "", "no successful execution found (%d paths)", len(ps))
			}
			// rejected openings
			for n := 0; n < 2; n++ {
				sc := base
				sc.acks = func(resp int) []codeIv {
					if resp == 1 {
						l := []codeIv{okCode, okCode}
						l[n] = errorCode
						return l
					}
					return []codeIv{okCode}
				}
				sc.label = fmt.Sprintf("%s, error at %d", base.label, n+1)
				d, ps := c.operation(sc)
				for _, p := range ps {
					if p.Kind != "return" {
						continue
					}
					for name, val := range d.state(p.St) {
						c.Check("rejected", sc.label, !fromSegment(val, 1, "") && !mentionsOp(val, "resp."), p.Where, "field %s is %s", name, cut(keyOf(val)))
					}
				}
			}
			// responses without data
			sc := base
			sc.present = 0
			sc.label = base.label + ", without data"
			d, ps = c.operation(sc)
			for _, p := range ps {
				if p.Kind != "return" {
					continue
				}
				for name, val := range d.state(p.St) {
					switch d.role(name) {
					case "accounts", "orders", "bank", "user":
						t, ok := val.(*Term)
						c.Check("absent", sc.label+" "+d.role(name), ok && strings.HasPrefix(t.Op, "dialog."), p.Where, "field %s is %s", name, cut(keyOf(val)))
					}
				}
			}
		}
		c.judgeNextOpening(v)
	}
	c.judgeListed()
}

func (c *Ctx) judgeAdopted(d *dlg, p Path, lab string, resp int) {
	bv := d.observe(p.St, d.recv, "BankParameterDataVersion")
	uv := d.observe(p.St, d.recv, "UserParameterDataVersion")
	ver := func(v Val, id string) bool {
		t, ok := v.(*Term)
		return ok && t.Op == ".Version" && fromSegment(v, resp, id)
	}
	c.Check("bank-version", lab, ver(bv, "HIBPA"), p.Where, "stored version is %s", cut(keyOf(bv)))
	c.Check("user-version", lab, ver(uv, "HIUPA"), p.Where, "stored version is %s", cut(keyOf(uv)))
	in := NewInterp(c.P)
	in.DeepN = 10
	fields := structFields(d.dt)
	for i, f := range fields {
		v, _ := getPath(p.St.get(d.obj), []int{i})
		if v == nil {
			continue
		}
		if d.role(f.Name()) == "accounts" {
			parts, ok := in.parts(p.St, p.St.resolve(v))
			bad := ""
			if !ok || len(parts) != 2 {
				bad = fmt.Sprintf("%d accounts for two in the response", len(parts))
			}
			for j, pt := range parts {
				dv := in.deep(p.St, pt.V)
				if !mentionsOp(dv, fmt.Sprintf("found.%d", j)) || !fromSegment(dv, resp, "HIUPD") || pt.Spread {
					bad = fmt.Sprintf("account %d is %s", j+1, cut(dv.Key()))
				}
			}
			c.Check("accounts", lab, bad == "", p.Where, "%s", bad)
		}
		if d.role(f.Name()) == "bank" {
			dv := in.deep(p.St, v)
			bad := ""
			for j := 0; j < 2; j++ {
				want := fmt.Sprintf("get:PinTanBusinessTransactions.%d", j)
				if !mentionsOp(dv, want) {
					bad = fmt.Sprintf("PIN/TAN order %d is missing", j+1)
				}
			}
			walk(dv, func(x Val) bool {
				m, ok := x.(*MapC)
				if !ok {
					return true
				}
				for _, e := range m.E {
					a, b := dropField(e.K), dropField(e.V)
					if strings.Contains(a, "PinTanBusinessTransactions") && a != b {
						bad = "flag of one order stored for another"
					}
				}
				return true
			})
			c.Check("tan", lab, bad == "", p.Where, "%s", bad)
			params, _ := getPath(v, pathOf(f.Type(), "SupportedSegmentParameters"))
			parts, ok := in.parts(p.St, p.St.resolve(params))
			bad = ""
			if !ok || len(parts) != 2 {
				bad = fmt.Sprintf("%d entries for two supported orders", len(parts))
			}
			for j, pt := range parts {
				if dv := in.deep(p.St, pt.V); !mentionsOp(dv, fmt.Sprintf("resp.SupportedSegments.%d", j)) {
					bad = fmt.Sprintf("entry %d is %s", j+1, cut(dv.Key()))
				}
				if w := paramsOf(in, p.St, pt.V, j); w != "" {
					bad = w
				}
			}
			c.Check("orders", lab+" parameters", bad == "", p.Where, "%s", bad)
		}
	}
	sv := d.observe(p.St, d.recv, "SupportedSegments")
	var parts []Part
	if sq, ok := sv.(*Seq); ok {
		parts = sq.P
	}
	bad := ""
	if len(parts) != 2 {
		bad = fmt.Sprintf("supported orders are %s", cut(keyOf(sv)))
	}
	for j, pt := range parts {
		t, ok := pt.V.(*Term)
		if !ok || t.Op != fmt.Sprintf("resp.SupportedSegments.%d", j) || t.A[0].(*Term).Op != fmt.Sprintf("resp:%d", resp) {
			bad = fmt.Sprintf("supported order %d is %s", j+1, cut(keyOf(pt.V)))
		}
	}
	c.Check("orders", lab, bad == "", p.Where, "%s", bad)
}

// paramsOf judges the parameters stored with a listed order: they are a segment
// of the response that was looked up by the id of that order and whose version
// was found to be the one of that order.
func paramsOf(in *Interp, st *State, entry Val, j int) string {
	s, ok := expand(st.resolve(entry)).(*Struct)
	if !ok {
		return ""
	}
	order := fmt.Sprintf("resp.SupportedSegments.%d", j)
	for i, f := range structFields2(s.T) {
		if f.Name() != "Parameters" || i >= len(s.F) {
			continue
		}
		v := in.deep(st, st.resolve(s.F[i]))
		if isNil(v) || !mentionsOp(v, "found") && !mentionsOp(v, "found.0") && !mentionsOp(v, "found.1") {
			return ""
		}
		if !mentionsOp(v, order) {
			return fmt.Sprintf("entry %d has the parameters %s", j+1, cut(v.Key()))
		}
		matched := false
		st.conds(func(t *Term, b bool) {
			if (t.Op == "==" && b || t.Op == "!=" && !b) && len(t.A) == 2 {
				for k := range t.A {
					x, y := in.deep(st, t.A[k]), in.deep(st, t.A[1-k])
					if strings.Contains(keyOf(x), keyOf(v)) && strings.Contains(keyOf(x), "Version") && !strings.Contains(keyOf(y), keyOf(v)) && strings.Contains(keyOf(y), order) && (strings.Contains(keyOf(y), "Version") || !strings.Contains(keyOf(y), ".ID")) {
						matched = true
					}
				}
			}
		})
		if !matched {
			return fmt.Sprintf("entry %d has parameters that may be of another version", j+1)
		}
	}
	return ""
}

// dropField removes the outermost accessor of a term's key.
func dropField(v Val) string {
	t, ok := stripConv(v).(*Term)
	if ok && strings.HasPrefix(t.Op, ".") && len(t.A) == 1 {
		return t.A[0].Key()
	}
	return keyOf(v)
}

// pathOf is the index path of a (promoted) field.
func pathOf(t types.Type, name string) []int {
	_, idx, _ := types.LookupFieldOrMethod(t, true, nil, name)
	return idx
}

// judgeNextOpening runs two synchronisations of the user data after each other.
func (c *Ctx) judgeNextOpening(v string) {
	sc := scenario{op: "SyncUserParameterData", version: v, encrypted: true, synced: true, present: 1, acks: okAcks}
	d, st := c.newDlg(sc)
	d.recvV = d.recv
	_, first := d.step([]*State{st}, "SyncUserParameterData", func(*State) []Val { return nil })
	var ok []*State
	for _, p := range first {
		if len(ok) < 3 && p.Kind == "return" && p.success() {
			ok = append(ok, p.St)
		}
	}
	_, ps := d.step(ok, "SyncUserParameterData", func(*State) []Val { return nil })
	n := 0
	for _, p := range ps {
		if p.Kind != "return" || !p.success() {
			continue
		}
		msgs := d.sent(p)
		openings := 0
		for _, m := range msgs {
			x := m.has("HKVVB")
			if x == nil {
				continue
			}
			openings++
			if openings != 2 {
				continue
			}
			n++
			b, u := d.fieldVal(x.ev.St, x.seg, "BPDVersion"), d.fieldVal(x.ev.St, x.seg, "UPDVersion")
			c.Check("announced", v+" bank parameter data", fromSegment(b, 1, "HIBPA"), c.P.Pos(m.ev.Pos), "second opening announces version %s", cut(keyOf(b)))
			if idn := m.has("HKIDN"); idn != nil {
				u := d.fieldVal(idn.ev.St, idn.seg, "ClientId")
				c.Check("announced", v+" user id", u != nil && fromSegment(u, 1, "HIUPA") && mentionsOp(u, ".UserID"), c.P.Pos(m.ev.Pos), "second opening names user %s", cut(keyOf(u)))
			}
			c.Check("announced", v+" user parameter data", fromSegment(u, 1, "HIUPA"), c.P.Pos(m.ev.Pos), "second opening announces version %s", cut(keyOf(u)))
		}
	}
	if n == 0 {
		c.Check("announced", v+" bank parameter data", false, "", "no second opening found (%d paths)", len(ps))
	}
}

// judgeListed analyses the list of supported orders of a decoded message.
func (c *Ctx) judgeListed() {
	p := c.P
	for _, n := range p.typesWith("message", "SupportedSegments") {
		f := p.MethodOpt(types.NewPointer(n), "SupportedSegments")
		if f == nil {
			continue
		}
		st := p.NewState()
		in := NewInterp(p)
		in.ConvFork = false
		comp := c.componentDecode(f, nil)
		const N = 3
		in.Hook = func(k *Call) ([]Outcome, bool) {
			if isExtract(k) {
				a := in.bytesTerm(k.St, k.Args[0])
				var ps []Part
				for i := 0; i < 3; i++ {
					ps = append(ps, Part{V: mk(fmt.Sprintf("el:%d", i), tBytes, a)})
				}
				return []Outcome{{Res: tuple(in.newSlice(k.St, types.NewSlice(tBytes), ps), &Nil{tError})}}, true
			}
			if k.Callee != nil && k.Sig.Results().Len() == 1 && types.Identical(k.Sig.Results().At(0).Type(), types.NewSlice(tBytes)) && p.InRepo(k.Callee) {
				var ps []Part
				for i := 0; i < N; i++ {
					ps = append(ps, Part{V: sym(fmt.Sprintf("seg:%d", i), tBytes)})
				}
				return []Outcome{{Res: in.newSlice(k.St, types.NewSlice(tBytes), ps)}}, true
			}
			if k.Callee != nil && pkgRel(k.Callee) == "element" && k.Callee.Name() == "Val" && len(k.Args) == 1 {
				if t, ok := k.St.resolve(k.Args[0]).(*Term); ok {
					return []Outcome{{Res: mk("val", k.Sig.Results().At(0).Type(), t)}}, true
				}
			}
			return comp(k)
		}
		ps := in.Run(st, f, symRecv(st, n, "msg"))
		c.use(in)
		bad := ""
		full := false
		for _, pa := range ps {
			if pa.Kind != "return" {
				bad = pa.Kind + " " + pa.Where
				continue
			}
			parts, ok := in.parts(pa.St, pa.Res[0])
			if !ok {
				bad = "the list is not analysable"
				continue
			}
			got := map[int]bool{}
			last := -1
			for _, pt := range parts {
				dv := in.deep(pa.St, pt.V)
				s, ok := dv.(*Struct)
				if !ok {
					bad = "entry is " + cut(keyOf(dv))
					continue
				}
				segs := map[string]bool{}
				for i := range s.F {
					fn := under(s.T).(*types.Struct).Field(i).Name()
					l := keys(secretsOf(s.F[i], "seg:"))
					if len(l) != 1 || !mentionsOp(s.F[i], "."+fn) {
						bad = fmt.Sprintf("%s of an entry is %s", fn, cut(keyOf(s.F[i])))
					}
					for _, x := range l {
						segs[x] = true
					}
				}
				k := keys(segs)
				if len(k) != 1 {
					bad = fmt.Sprintf("entry mixes segments %v", k)
					continue
				}
				var x int
				fmt.Sscanf(k[0], "seg:%d", &x)
				if x <= last {
					bad = "entries are out of order"
				}
				last = x
				got[x] = true
			}
			if len(parts) == N {
				full = true
			}
			for i := 0; i < N; i++ {
				if got[i] {
					continue
				}
				// left out: only when the id is known to be too short
				id := fmt.Sprintf("seg:%d", i)
				short := false
				for k, f := range pa.St.facts {
					if strings.HasPrefix(k, "len(") && strings.Contains(k, id) && f.HasIv && f.Hi <= 5 {
						short = true
					}
				}
				if !short {
					bad = fmt.Sprintf("segment %d is left out although its id is long enough", i+1)
				}
			}
		}
		if !full && bad == "" {
			bad = "no execution lists every parameter segment"
		}
		c.Check("listed", n.Obj().Name(), bad == "", p.Pos(f.Pos()), "%s (%d paths)", bad, len(ps))
	}
}
