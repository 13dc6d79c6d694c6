package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() { checks["P05"] = checkP05 }

func checkP05(c *Ctx) {
	c.Rule("layout", "every message handed to the transport is exactly: message header, [signature header,] segments in the given order, [signature trailer,] message trailer; or, encrypted, header, encryption header, encrypted data, trailer, the rest inside", 20)
	c.Rule("numbers", "the segments are numbered consecutively from 1; only encryption header and encrypted data carry the fixed numbers 998 and 999", 20)
	c.Rule("size", "the size in the header is the sum of the lengths of exactly the segments that are sent, as they are sent", 20)
	c.Rule("width", "the size field is written with the same number of characters whatever the size is", 1)
	c.Rule("absent", "absent segments take no number and no bytes", 4)
	seen := map[bool]bool{}
	for _, sc := range dialogScenarios(false) {
		if sc.present == 0 && sc.encrypted || strings.HasSuffix(sc.label, "warnings") || strings.HasSuffix(sc.label, "silent") {
			continue
		}
		n := 1
		if strings.HasSuffix(sc.op, "Message") {
			n = 3
		}
		for k := 1; k <= n; k++ {
			c.layout(sc, k, false)
		}
		if n > 1 && !seen[sc.encrypted] && strings.Contains(sc.label, "faults=0") {
			// numbers of two and of three digits
			seen[sc.encrypted] = true
			c.layout(sc, 12, false)
			c.layout(sc, 104, false)
		}
		if n > 1 {
			c.layout(sc, 2, true)
		}
	}
}

// layout runs one operation with the given number of orders, the last but one
// of them absent.
func (c *Ctx) layout(sc scenario, orders int, absent bool) {
	p := c.P
	lab := sc.label
	if strings.HasSuffix(sc.op, "Message") {
		lab += fmt.Sprintf(" %d orders", orders)
		if absent {
			lab += " and an absent one"
		}
	}
	d, st := c.realDlg(sc)
	d.numbered = true
	sts := []*State{st}
	sts, _ = d.step(sts, "SetPin", func(s *State) []Val {
		t := sym("pin:1", tString)
		s.assume(mk("==", tBool, t, cStr("")), false)
		return []Val{t}
	})
	if sc.synced {
		sts, _ = d.step(sts, "SetClientSystemID", func(s *State) []Val {
			t := sym("system:1", tString)
			s.assume(mk("==", tBool, t, cStr("")), false)
			s.assume(mk("==", tBool, t, cStr("0")), false)
			return []Val{t}
		})
	}
	var want []string
	_, ps := d.step(sts, sc.op, func(s *State) []Val {
		if !strings.HasSuffix(sc.op, "Message") {
			return nil
		}
		want = nil
		cs := p.TypeNamed("segment", "ClientSegment")
		var os []Val
		for i := 1; i <= orders; i++ {
			o := sym(fmt.Sprintf("order:%d", i), cs)
			nonNilTerm(s, o)
			if absent && i == orders {
				pt := types.NewPointer(p.TypeNamed("segment", "TanRequestSegment"))
				os = append(os, &Iface{Dyn: pt, V: &Nil{pt}})
			}
			os = append(os, o)
			want = append(want, o.Op)
		}
		return []Val{d.order(s, os...)}
	})
	msgs, okLay, okNum, okSize := 0, true, true, true
	why := map[string]string{}
	where := "-"
	orderSeen := false
	for _, q := range ps {
		if q.Kind == "panic" {
			okLay = false
			why["layout"] = "panic: " + q.Where
		}
		mars := d.mars(q)
		for mi, m := range d.sent(q) {
			if len(m.segs) == 0 {
				continue
			}
			msgs++
			where = p.Pos(m.ev.Pos)
			fail := func(rule, f string, a ...any) {
				if why[rule] == "" {
					why[rule] = fmt.Sprintf("message %d: ", mi+1) + fmt.Sprintf(f, a...)
				}
				switch rule {
				case "layout":
					okLay = false
				case "numbers":
					okNum = false
				default:
					okSize = false
				}
			}
			inner := m.inner
			if len(inner) == 0 {
				inner = d.payload(q, m)
			}
			// nothing but segments
			if x := foreign(bodyOf(m.ev.Args[0])); x != "" {
				fail("layout", "the message contains %s beside its segments", x)
			}
			ids := idsOf(m.segs)
			var seq []*segMar // in the order of their numbers
			if len(ids) > 1 && ids[1] == "HNVSK" {
				if strings.Join(ids, " ") != "HNHBK HNVSK HNVSD HNHBS" {
					fail("layout", "the envelope is %v", ids)
				}
				seq = append(append(append(seq, m.segs[0]), inner...), m.segs[len(m.segs)-1])
				for i, n := range []int64{998, 999} {
					if i+1 < len(m.segs) {
						if g, ok := d.number(m.segs[i+1]); !ok || g != n {
							fail("numbers", "%s carries number %s", ids[i+1], d.numberText(m.segs[i+1]))
						}
					}
				}
				if vd := m.has("HNVSD"); vd != nil {
					if f := d.field(vd.ev.St, vd.seg, "Data"); f != nil {
						if x := foreign(d.call(vd.ev.St, f, "Val")); x != "" {
							fail("layout", "the payload contains %s beside its segments", x)
						}
					}
				}
			} else {
				seq = m.segs
			}
			sids := idsOf(seq)
			core := sids
			if len(sids) < 2 || sids[0] != "HNHBK" || sids[len(sids)-1] != "HNHBS" {
				fail("layout", "the segments are %v", sids)
				core = nil
			} else {
				core = sids[1 : len(sids)-1]
			}
			if len(core) > 0 && (core[0] == "HNSHK" || core[len(core)-1] == "HNSHA") {
				if core[0] != "HNSHK" || core[len(core)-1] != "HNSHA" || len(core) < 2 {
					fail("layout", "the signed part is %v", core)
				} else {
					core = core[1 : len(core)-1]
				}
			}
			got := strings.Join(core, " ")
			for _, id := range core {
				switch id {
				case "HNHBK", "HNHBS", "HNSHK", "HNSHA", "HNVSK", "HNVSD":
					fail("layout", "the segments are %v", sids)
				}
			}
			if strings.Contains(got, "order:") {
				orderSeen = true
				if got != strings.Join(want, " ") {
					fail("layout", "the orders %v are sent as %v", want, core)
				}
			}
			for i, s := range seq {
				if g, ok := d.number(s); !ok || g != int64(i+1) {
					fail("numbers", "segment %d, %s, carries number %s (%v)", i+1, s.id, d.numberText(s), sids)
				}
			}
			// the size
			h := m.segs[0]
			if h.id != "HNHBK" {
				continue
			}
			size := d.fieldVal(h.ev.St, h.seg, "Size")
			base, off := linear(size)
			var counted []*segMar
			bad := ""
			if size == nil || off != 0 {
				bad = fmt.Sprintf("the size is %s", cut(keyOf(size)))
			} else {
				counted, bad = lengthsIn(base, mars)
			}
			if bad != "" {
				fail("size", "%s", bad)
				continue
			}
			var a, b []string
			for _, s := range m.segs {
				a = append(a, d.content(s))
			}
			for _, s := range counted {
				b = append(b, d.content(s))
			}
			sort.Strings(a)
			sort.Strings(b)
			if strings.Join(a, "\n") != strings.Join(b, "\n") {
				fail("size", "the size counts %v, sent is %v", idsOf(counted), ids)
			}
			if t := d.call(h.ev.St, d.field(h.ev.St, h.seg, "Size"), "String"); c.widthOf == "" {
				c.widthOf = flatText(t)
				c.Check("width", "message size", strings.HasPrefix(c.widthOf, "fmt:%012d") || strings.HasPrefix(c.widthOf, "fmt:%0*d"), where, "the size is written as %s", cut(c.widthOf))
			}
		}
	}
	if msgs == 0 {
		c.Check("layout", lab, false, where, "no message found")
		return
	}
	if len(want) > 0 && !orderSeen {
		okLay = false
		why["layout"] = "the orders are not sent"
	}
	c.Check("layout", lab, okLay, where, "%s", why["layout"])
	c.Check("numbers", lab, okNum, where, "%s", why["numbers"])
	c.Check("size", lab, okSize, where, "%s", why["size"])
	if absent {
		c.Check("absent", lab, okLay && okNum && okSize, where, "%s%s%s", why["layout"], why["numbers"], why["size"])
	}
}

func idsOf(l []*segMar) []string {
	var r []string
	for _, s := range l {
		r = append(r, s.id)
	}
	return r
}

// foreign names the first part of a byte value that is no encoded segment.
func foreign(v Val) string {
	for _, x := range appendCat(nil, v) {
		x = stripConv(x)
		if t, ok := x.(*Term); ok && (strings.HasPrefix(t.Op, "mar#") || strings.HasPrefix(t.Op, "encrypt#")) {
			continue
		}
		if s, ok := asStr(x); ok && s == "" {
			continue
		}
		return cut(keyOf(x))
	}
	return ""
}

// lengthsIn lists the segments whose lengths are added up.
func lengthsIn(v Val, mars map[string]*segMar) (out []*segMar, bad string) {
	if v == nil {
		return nil, "the size is constant"
	}
	t, ok := v.(*Term)
	if !ok {
		return nil, "the size is " + cut(keyOf(v))
	}
	switch {
	case t.Op == "+":
		for _, a := range t.A {
			l, b := lengthsIn(a, mars)
			if b != "" {
				return nil, b
			}
			out = append(out, l...)
		}
		return out, ""
	case t.Op == "len" && len(t.A) == 1:
		for _, x := range appendCat(nil, t.A[0]) {
			y, ok := stripConv(x).(*Term)
			if !ok || mars[y.Op] == nil {
				return nil, "the size counts " + cut(keyOf(x))
			}
			out = append(out, mars[y.Op])
		}
		return out, ""
	}
	return nil, "the size is made from " + cut(t.Key())
}

// number is the position a segment carries when it is encoded.
func (d *dlg) number(m *segMar) (int64, bool) {
	if n, ok := d.numbers[m.ev]; ok {
		return n, true
	}
	v := d.numberVal(m)
	n, ok := asInt(v)
	if ok {
		if d.numbers == nil {
			d.numbers = map[*Event]int64{}
		}
		d.numbers[m.ev] = int64(n)
	}
	return int64(n), ok
}

func (d *dlg) numberText(m *segMar) string { return cut(keyOf(d.numberVal(m))) }

func (d *dlg) numberVal(m *segMar) Val {
	if t, ok := m.seg.(*Term); ok {
		if v := m.ev.St.notes["position:"+t.key]; v != nil {
			return v
		}
		return nil
	}
	st := m.ev.St.snapshot()
	v := st.resolve(m.seg)
	fn := d.p.MethodOpt(types.NewPointer(d.segType(m)), "Header")
	if fn == nil {
		return nil
	}
	in := NewInterp(d.p)
	ps := in.Run(st, fn, v)
	if len(ps) != 1 || ps[0].Kind != "return" {
		return nil
	}
	f := d.field(ps[0].St, ps[0].Res[0], "Position")
	if f == nil {
		return nil
	}
	return d.call(ps[0].St, f, "Val")
}

func (d *dlg) segType(m *segMar) types.Type {
	if p, ok := m.ev.St.resolve(m.seg).(*Ptr); ok {
		cur, _ := getPath(m.ev.St.get(p.Obj), p.Path)
		return valType(cur)
	}
	return tInt
}

// content is what an encoded segment consists of, the size in the header left out.
func (d *dlg) content(m *segMar) string {
	s, ok := d.contents[m.ev]
	if !ok {
		s = d.content1(m)
		if d.contents == nil {
			d.contents = map[*Event]string{}
		}
		d.contents[m.ev] = s
	}
	return s
}

func (d *dlg) content1(m *segMar) string {
	if t, ok := m.seg.(*Term); ok {
		return t.key + "@" + d.numberText(m)
	}
	if m.id != "HNHBK" {
		return m.id + keyOf(d.call(m.ev.St, m.seg, "String"))
	}
	s := m.id + d.numberText(m)
	n := namedOf(d.segType(m))
	for _, f := range structFields(n) {
		if f.Name() == "Size" || f.Embedded() {
			continue
		}
		v := d.field(m.ev.St, m.seg, f.Name())
		if v == nil || isNil(m.ev.St.resolve(v)) {
			s += "|-"
			continue
		}
		s += "|" + keyOf(d.call(m.ev.St, v, "String"))
	}
	return s
}
