package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() { checks["P34"] = checkP34 }

// tanCase is what an opening response says about security functions.
type tanCase struct {
	announced []string // allowed for the user; nil: not told
	second    bool     // told by the second acknowledgement
	params    bool     // two-step procedures are described
	described []string
	current   string // selected by the caller before
	pinLast   bool   // the caller sets the PIN after the function
	again     bool   // a second operation after a new PIN
}

// want is the function in use afterwards; "" if the operation has to fail.
func (t tanCase) want() string {
	cur := t.current
	if cur == "" {
		cur = "999"
	}
	if t.announced == nil || !t.params {
		return cur
	}
	for _, a := range t.announced {
		for _, d := range t.described {
			if a == d {
				return a
			}
		}
	}
	return ""
}

func (t tanCase) String() string {
	s := "nothing announced"
	if t.announced != nil {
		s = fmt.Sprintf("announced %v", t.announced)
	}
	if t.second {
		s += " by the second acknowledgement"
	}
	if !t.params {
		s += ", no parameters"
	} else {
		s += fmt.Sprintf(", described %v", t.described)
	}
	if t.current != "" {
		s += ", before " + t.current
	}
	if t.pinLast {
		s += ", then a new PIN"
	}
	if t.again {
		s += ", second operation after a new PIN"
	}
	return s
}

// tanHook answers for the parts of a response that concern the case.
func (d *dlg) tanHook(t tanCase, id string) func(*Call) ([]Outcome, bool) {
	return func(k *Call) ([]Outcome, bool) {
		st := k.St
		m := ""
		if k.Method != nil && k.Callee == nil {
			m = k.Method.Name()
		}
		if r, ok := k.Recv.(*Term); ok && strings.HasPrefix(r.Op, "resp:") {
			var n int
			fmt.Sscanf(r.Op, "resp:%d", &n)
			switch m {
			case "FindSegment":
				if s, ok := asStr(k.In.deep(st, k.Args[0])); ok && s == id && !t.params {
					return []Outcome{{Res: &Nil{k.Sig.Results().At(0).Type()}}}, true
				} else if ok && s == id {
					pt := types.NewPointer(d.p.TypeNamed("segment", "TanBankParameterV6"))
					x := mk("found", pt, r, k.In.deep(st, k.Args[0]))
					return []Outcome{{Res: &Iface{Dyn: pt, V: x}, Do: func(s *State) bool { nonNilTerm(s, x); return true }}}, true
				}
			case "Acknowledgements":
				at := d.p.TypeNamed("domain", "Acknowledgement")
				s := under(at).(*types.Struct)
				var ps []Part
				num := 2
				told := 0
				if t.second {
					told = 1
				}
				for i := 0; i < num; i++ {
					v := &Struct{T: at, F: make([]Val, s.NumFields())}
					for j := range v.F {
						f := s.Field(j)
						v.F[j] = sym(fmt.Sprintf("ack:%d:%d.%s", n, i, f.Name()), f.Type())
						is := n == 1 && t.announced != nil && i == told
						switch {
						case f.Name() == "Code" && is:
							v.F[j] = &Const{cInt(3920).V, f.Type()}
						case f.Name() == "Code":
							v.F[j] = &Const{cInt(20).V, f.Type()}
						case f.Name() == "Params" && is:
							var l []Part
							for _, a := range t.announced {
								l = append(l, Part{V: cStr(a)})
							}
							v.F[j] = k.In.newSlice(st, f.Type(), l)
						}
					}
					ps = append(ps, Part{V: v})
				}
				return []Outcome{{Res: k.In.newSlice(st, types.NewSlice(at), ps)}}, true
			}
		}
		if k.Callee == nil || pkgRel(k.Callee) != "element" || len(k.Args) != 1 {
			return nil, false
		}
		x, ok := st.resolve(k.Args[0]).(*Term)
		if !ok {
			return nil, false
		}
		switch k.Callee.Name() {
		case "GroupDataElements":
			rt := k.Sig.Results().At(0).Type()
			var ps []Part
			for i := range t.described {
				pt := types.NewPointer(d.p.TypeNamed("element", "Tan2StepSubmissionProcessParameterV6"))
				e := mk(fmt.Sprintf("group.%d", i), pt, x)
				nonNilTerm(st, e)
				ps = append(ps, Part{V: &Iface{Dyn: pt, V: e}})
			}
			return []Outcome{{Res: k.In.newSlice(st, rt, ps)}}, true
		case "Val":
			if !strings.Contains(x.key, ".SecurityFunction") {
				return nil, false
			}
			for i, f := range t.described {
				if mentionsOp(x, fmt.Sprintf("group.%d", i)) {
					return []Outcome{{Res: &Const{cStr(f).V, k.Sig.Results().At(0).Type()}}}, true
				}
			}
		}
		return nil, false
	}
}

func checkP34(c *Ctx) {
	c.Rule("selection", "after an accepted opening response every message uses the first security function of the bank's list that the bank describes; without a list or description the function in use stays", 40)
	c.Rule("none usable", "if the bank describes none of the functions it allows, the operation fails", 10)
	c.Rule("profile", "function 999 announces version 1 of the PIN profile, any other function version 2, in signature and encryption header alike", 40)
	c.Rule("opening", "an authenticated opening or synchronisation carries exactly one TAN request of process 4 that names the identification segment", 6)
	c.Rule("request", "an authenticated order carries exactly one TAN request of process 4 that names the identification segment, ahead of the order", 6)
	c.Assume = append(c.Assume, "lists of up to three functions stand for longer ones")
	id := "HITANS"
	var cases []tanCase
	lists := [][]string{nil, {}, {"997"}, {"997", "902"}, {"902", "997"}, {"942"}, {"942", "997"}, {"942", "902", "997"}, {"997", "997"}, {"999", "997"}}
	desc := [][]string{{}, {"997"}, {"997", "902"}, {"902", "997"}}
	for _, l := range lists {
		for _, x := range desc {
			for _, cur := range []string{"", "902", "998"} {
				cases = append(cases, tanCase{announced: l, params: true, described: x, current: cur})
			}
		}
		cases = append(cases, tanCase{announced: l, current: "997"})
	}
	for _, ag := range []bool{false, true} {
		cases = append(cases,
			tanCase{announced: []string{"997"}, params: true, described: []string{"997", "902"}, again: ag, pinLast: true},
			tanCase{announced: nil, params: true, described: []string{"997", "902"}, current: "902", again: ag, pinLast: true},
			tanCase{announced: []string{"999", "997"}, params: true, described: []string{"997", "999"}, current: "902", again: ag},
		)
	}
	cases = append(cases, tanCase{announced: []string{"902"}, second: true, params: true, described: []string{"997", "902"}})
	for _, v := range dialogVersions {
		for _, op := range []string{"SendMessage", "SyncUserParameterData", "SyncClientSystemID"} {
			for _, t := range cases {
				if op != "SyncUserParameterData" && len(t.described) == 1 {
					continue
				}
				c.judgeSelection(v, op, t, id)
			}
		}
	}
	c.judgeTanRequests()
}

// emptyParams: the description of the procedures lacks a part it must have.
func emptyParams(st *State) bool {
	for k, f := range st.facts {
		if f.Nil == 1 && strings.Contains(k, "found(resp:") {
			return true
		}
	}
	return false
}

func (c *Ctx) judgeSelection(version, op string, t tanCase, id string) {
	lab := version + " " + op + ", " + t.String()
	sc := scenario{label: lab, op: op, version: version, acks: okAcks, encrypted: true, synced: true, present: 0}
	d, st := c.realDlg(sc)
	d.over = d.tanHook(t, id)
	sts := []*State{st}
	set := func(m, s string) {
		sts, _ = d.step(sts, m, func(*State) []Val { return []Val{cStr(s)} })
	}
	if !t.pinLast {
		set("SetPin", "12345")
	}
	set("SetClientSystemID", "7")
	if t.current != "" {
		set("SetSecurityFunction", t.current)
	}
	if t.pinLast {
		set("SetPin", "12345")
	}
	for _, s := range sts {
		s.events = nil
	}
	_, ps := d.step(sts, op, d.orderFor(op))
	want := t.want()
	cur := t.current
	if cur == "" {
		cur = "999"
	}
	if t.again {
		sts = nil
		for _, p := range ps {
			if p.success() && !emptyParams(p.St) {
				sts = append(sts, p.St)
			}
		}
		set("SetPin", "54321")
		for _, s := range sts {
			s.events = nil
		}
		_, ps = d.step(sts, op, d.orderFor(op))
		cur = want
	}
	good := 0
	for _, p := range ps {
		if emptyParams(p.St) {
			continue
		}
		if p.Kind != "return" {
			c.Check("selection", lab, false, p.Where, "ends with "+p.Kind)
			continue
		}
		if want == "" {
			c.Check("none usable", lab, p.failed(), p.Where, "the operation does not fail")
			good++
			continue
		}
		if !p.success() {
			c.Check("selection", lab, false, p.Where, "the operation fails")
			continue
		}
		good++
		for i, m := range d.sent(p) {
			where := c.P.Pos(m.ev.Pos)
			hv, hk := m.has("HNVSK"), d.innerSeg(p, m, "HNSHK")
			if hv == nil || hk == nil {
				c.Check("selection", lab, false, where, "message %d is not a signed and encrypted message", i+1)
				continue
			}
			use := want
			if i == 0 {
				use = cur
			}
			fn := d.fieldVal(hk.ev.St, hk.seg, "SecurityFunction")
			s, ok := asStr(fn)
			c.Check("selection", lab, ok && s == use, where, "message %d announces security function %s, not %s", i+1, cut(keyOf(fn)), use)
			ver := map[bool]string{true: "1", false: "2"}[use == "999"]
			for _, h := range []*segMar{hk, hv} {
				f := d.field(h.ev.St, h.seg, "SecurityProfile")
				if f == nil {
					continue // HBCI 2.2 has none
				}
				x := d.call(h.ev.St, f, "String")
				s, ok := asStr(x)
				c.Check("profile", lab, ok && s == "PIN:"+ver, where, "message %d: %s announces profile %s for function %s", i+1, h.id, cut(keyOf(x)), use)
			}
		}
	}
	if good == 0 {
		c.Check("selection", lab, false, "", "no execution found (%d paths)", len(ps))
	}
}

// orderFor supplies the order an operation takes, if any.
func (d *dlg) orderFor(op string) func(*State) []Val {
	return func(s *State) []Val {
		if op != "SendMessage" {
			return nil
		}
		o := sym("order:1", d.p.TypeNamed("segment", "ClientSegment"))
		nonNilTerm(s, o)
		return []Val{d.order(s, o)}
	}
}

// innerSeg finds a segment of the encrypted payload of a message.
func (d *dlg) innerSeg(p Path, m *sentMsg, id string) *segMar {
	for _, x := range d.innerSegs(p, m) {
		if x.id == id {
			return x
		}
	}
	return nil
}

func (d *dlg) innerSegs(p Path, m *sentMsg) (l []*segMar) {
	mars := d.mars(p)
	if vd := m.has("HNVSD"); vd != nil {
		if f := d.field(vd.ev.St, vd.seg, "Data"); f != nil {
			ops, _ := pieces(d.call(vd.ev.St, f, "Val"))
			for _, op := range ops {
				if x := mars[op]; x != nil {
					l = append(l, x)
				}
			}
		}
	}
	return
}

// judgeTanRequests checks the TAN requests of openings and orders.
func (c *Ctx) judgeTanRequests() {
	for _, v := range dialogVersions {
		for _, op := range []string{"SendMessage", "SyncUserParameterData", "SyncClientSystemID"} {
			sc := scenario{label: v + " " + op, op: op, version: v, acks: okAcks, encrypted: true, synced: true, present: 0}
			d, st := c.realDlg(sc)
			sts, _ := d.step([]*State{st}, "SetPin", func(*State) []Val { return []Val{cStr("12345")} })
			for _, s := range sts {
				s.events = nil
			}
			_, ps := d.step(sts, op, d.orderFor(op))
			n := 0
			for _, p := range ps {
				if p.Kind != "return" || !p.success() {
					continue
				}
				for _, m := range d.sent(p) {
					var tans []*segMar
					opening := false
					for _, x := range d.innerSegs(p, m) {
						opening = opening || x.id == "HKIDN"
						if x.id == "HKTAN" {
							tans = append(tans, x)
						}
					}
					if !opening {
						continue
					}
					n++
					bad := ""
					if len(tans) != 1 {
						bad = fmt.Sprintf("%d TAN requests", len(tans))
					} else {
						proc, _ := asStr(d.fieldVal(tans[0].ev.St, tans[0].seg, "TANProcess"))
						ref, _ := asStr(d.fieldVal(tans[0].ev.St, tans[0].seg, "ReferencingSegmentID"))
						if proc != "4" || ref != "HKIDN" {
							bad = fmt.Sprintf("TAN request of process %q for %q", proc, ref)
						}
					}
					c.Check("opening", v+" "+op, bad == "", c.P.Pos(m.ev.Pos), "the opening carries %s", bad)
				}
			}
			if n == 0 {
				c.Check("opening", v+" "+op, false, "", "no opening found (%d paths)", len(ps))
			}
		}
	}
	for _, op := range []string{"AccountTransactions", "SepaAccountTransactions", "AccountBalances", "SepaAccountBalances", "Status", "AccountInformation"} {
		fn := c.P.MethodOpt(types.NewPointer(c.P.TypeNamed("client", "Client")), op)
		if fn == nil {
			continue
		}
		id := orderOf[op]
		where := c.P.Pos(fn.Pos())
		built := 0
		for v := int64(1); v <= 12; v++ {
			x, st := c.newCli()
			x.client(st)
			x.acks = benignAcks
			x.listed = []vseg{{paramsID(id), v}}
			for _, p := range x.run(st, op, clientArgs(st, fn).vals...) {
				if p.Kind != "return" {
					continue
				}
				for _, o := range x.orders(p) {
					built++
					bad, tan, ord := "", 0, false
					for _, s := range o.segs {
						if x.segID(o.ev.St, s) != "HKTAN" {
							ord = true
							continue
						}
						tan++
						if ord {
							bad = "the TAN request follows the order"
						}
						for _, q := range x.texts(o.ev.St, s) {
							fs := wireFields(q.Res[0])
							if len(fs) < 3 || fieldKeyOf(fs[1]) != "4" || fieldKeyOf(fs[2]) != "HKIDN" {
								bad = "the TAN request is " + cut(keyOf(q.Res[0]))
							}
						}
					}
					if tan != 1 {
						bad = fmt.Sprintf("%d TAN requests", tan)
					}
					c.Check("request", fmt.Sprintf("%s, version %d", op, v), bad == "", where, "%s", bad)
				}
			}
		}
		c.Check("request", op+" sends a request in some version", built > 0, where, "no request is ever sent")
	}
}
