package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P32"] = checkP32 }

// dateHook models what the functions of the dates use.
func dateHook(k *Call) ([]Outcome, bool) {
	in, st := k.In, k.St
	arg := func(i int) Val { return st.resolve(k.Args[i]) }
	text := func(i int) Val { return stripConv(in.bytesTerm(st, k.Args[i])) }
	one := func(v Val) ([]Outcome, bool) { return []Outcome{{Res: v}}, true }
	res := func(i int) types.Type { return k.Sig.Results().At(i).Type() }
	switch k.Name {
	case "(time.Time).IsZero":
		switch t := cutOff(arg(0)).(type) {
		case *Term:
			return one(st.resolve(mk("zero", tBool, t)))
		case *Struct:
			zero := true
			for _, f := range t.F {
				n, isInt := asInt(f)
				_, isNil := f.(*Nil)
				zero = zero && (isInt && n == 0 || isNil)
			}
			return one(cBool(zero))
		}
	case "(time.Time).Format":
		if l, ok := asStr(arg(1)); ok {
			t := mk("time:"+l, tString, arg(0))
			st.assume(mk("==", tBool, t, cStr("")), len(strings.Trim(l, " ")) == 0)
			return one(t)
		}
	case "encoding/json.Marshal":
		v := unbox(arg(0))
		if t := valType(v); t != nil && types.Identical(under(t), tString) {
			return one(tuple(mk("json", res(0), v), &Nil{tError}))
		}
	case "encoding/json.Unmarshal":
		if t, ok := text(0).(*Term); ok && t.Op == "json" {
			if p, ok := unbox(arg(1)).(*Ptr); ok && len(p.Path) == 0 && types.Identical(under(valType(st.get(p.Obj))), tString) {
				return []Outcome{{Res: &Nil{tError}, Do: func(s *State) bool { s.set(p.Obj, t.A[0]); return true }}}, true
			}
		}
	case "strconv.Quote":
		return one(mk("json", tString, text(0)))
	case "strconv.Unquote":
		if t, ok := text(0).(*Term); ok && t.Op == "json" {
			return one(tuple(t.A[0], &Nil{tError}))
		}
		e := st.fresh("malformed", tError)
		return []Outcome{{Res: tuple(cStr(""), e), Do: func(s *State) bool { nonNilTerm(s, e); return true }}, {Res: tuple(sym("other text", tString), &Nil{tError})}}, true
	case "time.Parse", "time.ParseInLocation":
		if ps := textParts(text(1)); len(ps) <= 1 {
			if len(ps) == 0 {
				ps = []Val{cStr("")}
			}
			if t, ok := ps[0].(*Term); ok && strings.HasPrefix(t.Op, "time:") {
				break
			}
			e := st.fresh("malformed", tError)
			bad := []Outcome{{Res: tuple(zero(res(0)), e), Do: func(s *State) bool { nonNilTerm(s, e); return true }}}
			if _, ok := asStr(ps[0]); ok {
				return bad, true // no text fixed in the program is a date
			}
			return append(bad, Outcome{Res: tuple(st.fresh("date", res(0)), &Nil{tError})}), true
		}
	case "strings.Split":
		if s, ok := asStr(text(1)); ok && s != "" {
			var out []Part
			rest := textParts(text(0))
			for {
				b, a, found, known := findText(rest, s)
				if !known {
					return nil, false
				}
				if !found {
					out = append(out, Part{V: catOf(tString, rest...)})
					return one(in.newSlice(st, res(0), out))
				}
				out = append(out, Part{V: catOf(tString, b...)})
				rest = a
			}
		}
	case "(net/url.Values).Set", "(net/url.Values).Add":
		if n, ok := asStr(text(1)); ok {
			v := st.resolve(k.Args[2])
			return []Outcome{{Res: &Tuple{}, Do: func(s *State) bool {
				if _, twice := s.notes["param:"+n]; twice && strings.HasSuffix(k.Name, "Add") {
					return true // the first one is read
				}
				s.notes["param:"+n] = v
				return true
			}}}, true
		}
	case "(net/url.Values).Get":
		if n, ok := asStr(text(1)); ok {
			if v, ok := st.notes["param:"+n]; ok {
				return one(v)
			}
			return one(cStr(""))
		}
	}
	return textHook(k)
}

// cutOff is the time that a date was made from.
func cutOff(v Val) Val {
	for {
		t, ok := v.(*Term)
		if !ok || !strings.HasPrefix(t.Op, "cut:") || !keepsDay(t.Op[4:]) {
			return v
		}
		v = t.A[0]
	}
}

// keepsDay reports whether a date written in a layout can be read back.
func keepsDay(layout string) bool {
	for _, d := range []time.Time{time.Date(1999, 12, 31, 0, 0, 0, 0, time.UTC), time.Date(2024, 2, 29, 0, 0, 0, 0, time.UTC), time.Date(2031, 7, 4, 0, 0, 0, 0, time.UTC), time.Date(1, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1968, 10, 11, 0, 0, 0, 0, time.UTC)} {
		e, err := time.Parse(layout, d.Format(layout))
		if err != nil || !e.Equal(d) {
			return false
		}
	}
	return true
}

type dates struct {
	c     *Ctx
	short *types.Named
	frame *types.Named
}

func (d *dates) interp() *Interp {
	in := NewInterp(d.c.P)
	in.ConvFork = false
	in.Hook = dateHook
	in.MaxVisit = 8
	in.Inline = func(f *ssa.Function) bool { return f.Pkg != nil && pkgRel(f) == "domain" || f.Synthetic != "" }
	return in
}

// value is a date made of two symbols or one.
func (d *dates) value(n *types.Named, tag string) *Struct {
	s := expand(zero(n)).(*Struct)
	r := &Struct{T: s.T}
	for i, f := range structFields(n) {
		if nt := namedOf(f.Type()); nt == d.short {
			r.F = append(r.F, d.value(nt, tag+"."+f.Name()))
		} else if nt != nil && nt.String() == "time.Time" {
			r.F = append(r.F, sym(tag, f.Type()))
		} else {
			r.F = append(r.F, s.F[i])
		}
	}
	return r
}

// times lists the days in a value.
func (d *dates) times(v Val) (l []Val) {
	if n := namedOf(valType(v)); n == d.short || n == d.frame {
		if s, ok := expand(v).(*Struct); ok {
			for _, f := range s.F {
				l = append(l, d.times(f)...)
			}
			return
		}
	}
	return []Val{cutOff(v)}
}

func (d *dates) method(n *types.Named, name string) *ssa.Function {
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), name)
	f, ok := o.(*types.Func)
	if !ok {
		return nil
	}
	return d.c.P.SSA.FuncValue(f)
}

// call runs a method on a value and gives the states with the results.
func (d *dates) call(st *State, f *ssa.Function, recv int, args ...Val) []Path {
	in := d.interp()
	var r Val = &Ptr{Obj: recv}
	if _, isP := f.Signature.Recv().Type().(*types.Pointer); !isP {
		r = st.get(recv)
	}
	ps := in.Run(st, f, append([]Val{r}, args...)...)
	d.c.use(in)
	for i := range ps {
		ps[i].St.frames = nil
	}
	return ps
}

// pair checks that what one method writes is read back by another.
func (d *dates) pair(n *types.Named, write, read string) {
	c := d.c
	w, r := d.method(n, write), d.method(n, read)
	con := n.Obj().Name() + " " + write
	if w == nil || r == nil {
		c.Check("reads-back", con, false, "domain", "there is no %s or no %s", write, read)
		return
	}
	where := c.P.Pos(w.Pos())
	st := c.P.NewState()
	val := d.value(n, "day")
	obj := st.alloc(val)
	all := d.times(val)
	why, full, part := "", 0, 0
	fail := func(s string, a ...any) {
		if why == "" {
			why = fmt.Sprintf(s, a...)
		}
	}
	for _, p := range d.call(st, w, obj) {
		if p.Kind != "return" || len(p.Res) == 2 && p.St.nilness(p.Res[1]) != 1 {
			fail("%s ends with %s", write, p.Kind)
			continue
		}
		old := p.St.alloc(d.value(n, "old"))
		for _, q := range d.call(p.St.clone(), r, old, p.Res[0]) {
			if q.Kind != "return" || q.St.nilness(q.Res[0]) != 1 {
				fail("%s rejects %s", read, p.Res[0].Key())
				continue
			}
			set, empty := true, false
			for _, t := range all {
				b, known := q.St.truth(mk("zero", tBool, t))
				set = set && known && !b
				empty = empty || known && b
			}
			if !empty {
				// nothing is known to be unset: the text must be made of the days
				set = true
			}
			got := d.times(q.St.get(old))
			for i, t := range got {
				t = cutOff(q.St.resolve(t))
				z, isZ := t.(*Struct)
				if isZ {
					for _, f := range z.F {
						if k := f.Key(); k != "0" && k != "nil" {
							isZ = false
						}
					}
				}
				same := t.Key() == all[i].Key()
				if b, known := q.St.truth(mk("zero", tBool, all[i])); known && b {
					same = same || isZ
				}
				if set && !same || !set && !same && !isZ {
					fail("%s gives %s where %s was written", read, t.Key(), all[i].Key())
				}
			}
			if set {
				full++
			} else {
				part++
			}
		}
	}
	if full == 0 {
		fail("no date can be read back")
	}
	c.Check("reads-back", con, why == "", where, "%s", why)
}

// frameQuery checks the representation as parameters of a URL.
func (d *dates) frameQuery() {
	c := d.c
	w := d.method(d.frame, "ToQuery")
	r := c.P.Pkg("domain").Func("TimeframeFromQuery")
	if w == nil || r == nil {
		c.Check("reads-back", "query", false, "domain", "there is no ToQuery or no TimeframeFromQuery")
		return
	}
	where := c.P.Pos(w.Pos())
	val := d.value(d.frame, "day")
	all := d.times(val)
	run := func(set func(*State)) (ps []Path) {
		st := c.P.NewState()
		obj := st.alloc(val)
		for _, p := range d.call(st, w, obj) {
			if p.Kind != "return" {
				continue
			}
			if set != nil {
				set(p.St)
			}
			in := d.interp()
			ps = append(ps, in.Run(p.St, r, p.Res[0])...)
			c.use(in)
		}
		return
	}
	why := ""
	ps := run(nil)
	for _, q := range ps {
		if q.Kind != "return" || q.St.nilness(q.Res[1]) != 1 {
			why = "TimeframeFromQuery rejects what ToQuery writes"
			continue
		}
		for i, t := range d.times(q.Res[0]) {
			if t = cutOff(q.St.resolve(t)); t.Key() != all[i].Key() {
				why = fmt.Sprintf("TimeframeFromQuery gives %s where %s was written", t.Key(), all[i].Key())
			}
		}
	}
	c.Check("reads-back", "Timeframe ToQuery", why == "" && len(ps) > 0, where, "%s", orElse(why, "no outcome"))
	for _, n := range []string{"from", "to"} {
		for _, kind := range []string{"missing", "malformed"} {
			bad, n2 := "", 0
			for _, q := range run(func(s *State) {
				if kind == "missing" {
					delete(s.notes, "param:"+n)
				} else {
					s.notes["param:"+n] = sym("any text", tString)
				}
			}) {
				good := true // the text is a date on this path
				for i := range all {
					if t := d.times(q.Res[0])[i]; strings.HasPrefix(keyOf(t), "date") {
						good = false
					}
				}
				if q.Kind == "return" && !good {
					continue
				}
				n2++
				if q.Kind != "return" || q.St.nilness(q.Res[1]) != 2 {
					bad = "no error is reported"
				}
			}
			c.Check("malformed", "query "+n+" "+kind, bad == "" && n2 > 0, c.P.Pos(r.Pos()), "%s", orElse(bad, "not decided"))
		}
	}
}

// rejects checks that a text which is no date is reported.
func (d *dates) rejects(read string) {
	c := d.c
	r := d.method(d.short, read)
	if r == nil {
		return
	}
	st := c.P.NewState()
	old := st.alloc(d.value(d.short, "old"))
	bad, n := "", 0
	for _, q := range d.call(st, r, old, sym("text", tBytes)) {
		isDate := false
		for _, t := range d.times(q.St.get(old)) {
			isDate = isDate || strings.HasPrefix(keyOf(t), "date")
		}
		// an empty text stands for no date
		none, known := q.St.truth(mk("==", tBool, sym("other text", tString), cStr("")))
		empty := known && none
		if q.Kind == "return" && (isDate || empty) {
			continue
		}
		n++
		if q.Kind != "return" || q.St.nilness(q.Res[0]) != 2 {
			bad = "a text that is no date is accepted"
		}
	}
	c.Check("malformed", "ShortDate "+read, bad == "" && n > 0, c.P.Pos(r.Pos()), "%s", orElse(bad, "no text is rejected"))
}

func checkP32(c *Ctx) {
	c.Rule("reads-back", "what a date or a timeframe is written as is read back as the same date or timeframe, without an error; a date that is not set is read back as not set", 4)
	c.Rule("any-holder", "a type that reads its own representation also writes it when held by value, as it is inside other values, so that no embedded type's representation is written instead", 4)
	c.Rule("malformed", "a text that is no date is reported as an error and not taken for a date; a query without either end is reported", 6)
	c.Rule("day", "a ShortDate made from a time is the midnight, in one fixed zone, of that very day", 2)
	c.Rule("until-today", "a timeframe made from a date starts at that date and ends today", 2)
	p := c.P
	d := &dates{c: c, short: p.TypeNamed("domain", "ShortDate"), frame: p.TypeNamed("domain", "Timeframe")}
	d.pair(d.short, "MarshalJSON", "UnmarshalJSON")
	d.pair(d.short, "MarshalText", "UnmarshalText")
	d.pair(d.frame, "MarshalJSON", "UnmarshalJSON")
	d.frameQuery()
	d.rejects("UnmarshalJSON")
	d.rejects("UnmarshalText")

	// representations of values
	var named []*types.Named
	for _, pk := range p.SPkg {
		for _, m := range pk.Members {
			if t, ok := m.(*ssa.Type); ok && strings.HasPrefix(pk.Pkg.Path(), modPath) {
				if n, ok := t.Type().(*types.Named); ok {
					named = append(named, n)
				}
			}
		}
	}
	sort.Slice(named, func(i, j int) bool { return named[i].String() < named[j].String() })
	for _, n := range named {
		own := types.NewMethodSet(types.NewPointer(n))
		byVal := types.NewMethodSet(n)
		for _, w := range [][2]string{{"UnmarshalJSON", "MarshalJSON"}, {"UnmarshalText", "MarshalText"}} {
			r := own.Lookup(n.Obj().Pkg(), w[0])
			if r == nil || len(r.Index()) != 1 {
				continue
			}
			s := byVal.Lookup(n.Obj().Pkg(), w[1])
			c.Check("any-holder", n.Obj().Name()+" "+w[1], s != nil && len(s.Index()) == 1, p.Pos(r.Obj().Pos()), "a %s held by value is not written by its own %s", n.Obj().Name(), w[1])
		}
		if n == d.short || n == d.frame {
			s := byVal.Lookup(n.Obj().Pkg(), "String")
			c.Check("any-holder", n.Obj().Name()+" String", s != nil && len(s.Index()) == 1, p.Pos(n.Obj().Pos()), "a %s held by value is not shown by its own String", n.Obj().Name())
		}
	}

	// the day of a time
	dom := p.Pkg("domain")
	in := d.interp()
	in.Hook = func(k *Call) ([]Outcome, bool) {
		switch k.Name {
		case "time.Date", "(time.Time).Year", "(time.Time).Month", "(time.Time).Day", "(time.Time).Location":
			return []Outcome{{Res: mk(k.Name, k.Sig.Results().At(0).Type(), deepAll(k.In, k.St, k.Args)...)}}, true
		case "(time.Time).Date":
			t := k.St.resolve(k.Args[0])
			return []Outcome{{Res: tuple(mk("(time.Time).Year", tInt, t), mk("(time.Time).Month", k.Sig.Results().At(1).Type(), t), mk("(time.Time).Day", tInt, t))}}, true
		}
		return dateHook(k)
	}
	midnight := func(v Val, y, m, dd string) string {
		ts := d.times(v)
		t, ok := ts[0].(*Term)
		if len(ts) != 1 || !ok || t.Op != "time.Date" || len(t.A) != 8 {
			return "the date is " + keyOf(v)
		}
		for i, w := range []string{y, m, dd, "0", "0", "0", "0"} {
			if keyOf(stripConv(t.A[i])) != w {
				return fmt.Sprintf("argument %d of time.Date is %s, not %s", i+1, keyOf(t.A[i]), w)
			}
		}
		if !strings.Contains(keyOf(t.A[7]), "time.UTC") {
			return "the zone of the date is " + keyOf(t.A[7])
		}
		return ""
	}
	if f := dom.Func("Date"); f != nil {
		st := p.NewState()
		var a []Val
		for _, q := range f.Params {
			a = append(a, sym(q.Name(), q.Type()))
		}
		why := "does not return"
		for _, q := range in.Run(st, f, a...) {
			if q.Kind == "return" {
				why = midnight(q.Res[0], keyOf(a[0]), keyOf(a[1]), keyOf(a[2]))
			}
		}
		c.Check("day", "Date", why == "", p.Pos(f.Pos()), "%s", why)
	}
	if f := dom.Func("NewShortDate"); f != nil {
		st := p.NewState()
		t := sym("t", f.Params[0].Type())
		why := "does not return"
		for _, q := range in.Run(st, f, t) {
			if q.Kind == "return" {
				why = midnight(q.Res[0], "(time.Time).Year(t)", "(time.Time).Month(t)", "(time.Time).Day(t)")
			}
		}
		c.Check("day", "NewShortDate", why == "", p.Pos(f.Pos()), "%s", why)
	}
	c.use(in)
	if f := dom.Func("TimeframeFromDate"); f != nil {
		st := p.NewState()
		v := d.value(d.short, "day")
		in2 := d.interp()
		in2.Hook = func(k *Call) ([]Outcome, bool) {
			switch k.Name {
			case "time.Now":
				return []Outcome{{Res: sym("now", k.Sig.Results().At(0).Type())}}, true
			case "(time.Time).In", "(time.Time).UTC", "(time.Time).Local":
				return []Outcome{{Res: k.St.resolve(k.Args[0])}}, true
			}
			return in.Hook(k)
		}
		for _, q := range in2.Run(st, f, v) {
			if q.Kind != "return" {
				continue
			}
			s, ok := expand(q.Res[0]).(*Struct)
			if !ok {
				continue
			}
			c.Check("until-today", "start", keyOf(s.F[0]) == keyOf(v), p.Pos(f.Pos()), "the timeframe starts at %s", keyOf(s.F[0]))
			why := midnight(s.F[1], "(time.Time).Year(now)", "(time.Time).Month(now)", "(time.Time).Day(now)")
			c.Check("until-today", "end", why == "", p.Pos(f.Pos()), "%s", why)
		}
		c.use(in2)
	}
}
