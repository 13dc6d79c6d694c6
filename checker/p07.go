package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P07"] = checkP07 }

// primitive is a constructor of a field kind together with the parameter
// whose value the accessor Val returns.
type primitive struct {
	fn    *ssa.Function
	n     *types.Named
	value int
	val   *ssa.Function
}

func (c *Ctx) primitives() (out []primitive) {
	for _, fn := range c.P.constructors("element") {
		n := resultNamed(fn)
		if n == nil || c.P.hasComponents(n) {
			continue
		}
		val := c.P.MethodOpt(types.NewPointer(n), "Val")
		if val == nil || c.P.MethodOpt(types.NewPointer(n), "MarshalHBCI") == nil || c.P.MethodOpt(types.NewPointer(n), "UnmarshalHBCI") == nil {
			continue
		}
		rt := val.Signature.Results()
		if rt.Len() != 1 {
			continue
		}
		for i, p := range fn.Params {
			if types.Identical(p.Type(), rt.At(0).Type()) {
				out = append(out, primitive{fn, n, i, val})
				break
			}
		}
	}
	return
}

// checkP07 decides for each primitive field kind that reading the written
// form of every value yields that value.
func checkP07(c *Ctx) {
	c.Rule("format", "the written form of a field kind is the prescribed one: numbers in decimal, digits zero padded to the declared width, amounts with all decimal places and a decimal comma, dates and times in their layout, flags as J or N", 14)
	c.Rule("accepted", "a field kind reads every form it writes", 14)
	c.Rule("read-back", "after reading the written form the accessor returns the value that was written, whatever the field held before", 14)
	for _, pr := range c.primitives() {
		c.roundTrip(pr, "format", "accepted", "read-back")
	}
}

func (c *Ctx) textInterp() *Interp {
	in := NewInterp(c.P)
	in.ConvFork = false
	in.Hook = textHook
	in.DeepN = 10
	return in
}

// wireFormat judges the written form of a value of a field kind. decided is
// false for kinds without a prescribed form here.
func wireFormat(pr primitive, st *State, v Val, args []Val, w Val) (ok, decided bool, want string) {
	ps := textParts(w)
	term := func(op string, a Val) bool {
		if len(ps) != 1 {
			return false
		}
		t, ok := ps[0].(*Term)
		return ok && t.Op == op && t.A[0].Key() == a.Key()
	}
	name := strings.TrimPrefix(strings.TrimPrefix(pr.fn.Name(), "New"), "new")
	switch name {
	case "Number", "VirtualDate":
		return term("itoa", v), true, "the decimal number"
	case "Digit", "CountryCode":
		var width Val = cInt(3)
		want = "the number zero padded to 3 places"
		if name == "Digit" {
			want = "the number zero padded to the declared width"
			width = nil
			for i, a := range args {
				if i != pr.value && isInteger(pr.fn.Params[i].Type()) {
					width = a
				}
			}
		}
		if len(ps) == 1 && width != nil {
			t, isT := ps[0].(*Term)
			if isT && t.Op == "pad0" {
				return t.A[0].Key() == v.Key() && t.A[1].Key() == width.Key(), true, want
			}
		}
		if len(ps) == 2 && width != nil {
			// zeros(width - len(itoa v)) itoa(v)
			z, ok1 := ps[0].(*Term)
			n, ok2 := ps[1].(*Term)
			if ok1 && ok2 && z.Op == "zeros" && n.Op == "itoa" && n.A[0].Key() == v.Key() {
				return strings.Contains(z.A[0].Key(), width.Key()) && strings.Contains(z.A[0].Key(), lenOf(n).Key()), true, want
			}
		}
		if width != nil {
			// a number of zeros for which the path implies that they fill up the width
			k := 0
			rest := ps
			if s, isS := asStr(ps[0]); isS && strings.Trim(s, "0") == "" {
				k, rest = len(s), ps[1:]
			}
			if len(rest) == 1 {
				n, isT := rest[0].(*Term)
				if isT && n.Op == "itoa" && n.A[0].Key() == v.Key() {
					short, known := st.truth(mk("<", tBool, mkLinear(lenOf(n), int64(k), tInt), width))
					few, known2 := true, true
					if k > 0 {
						few, known2 = st.truth(mk("<", tBool, mkLinear(lenOf(n), int64(k-1), tInt), width))
					}
					return known && !short && known2 && few, true, want
				}
			}
		}
		return false, true, want
	case "Float", "Value":
		if len(ps) == 2 {
			t, isT := ps[0].(*Term)
			s, isS := asStr(ps[1])
			return isT && isS && t.Op == "digits" && t.A[0].Key() == v.Key() && s == ",", true, "all decimal places with a decimal comma"
		}
		if len(ps) == 3 {
			a, ok1 := ps[0].(*Term)
			s, isS := asStr(ps[1])
			b, ok2 := ps[2].(*Term)
			return ok1 && ok2 && isS && s == "," && a.Op == "intpart" && b.Op == "fracpart" && a.A[0].Key() == v.Key() && b.A[0].Key() == v.Key(), true, "all decimal places with a decimal comma"
		}
		return false, true, "all decimal places with a decimal comma"
	case "Date":
		return term("time:20060102", v), true, "year, month and day as 20060102"
	case "Time":
		return term("time:150405", v), true, "hour, minute and second as 150405"
	case "Boolean":
		s, isS := "", false
		if len(ps) == 1 {
			s, isS = asStr(ps[0])
		}
		b, known := st.truth(v)
		return isS && known && (s == "J" && b || s == "N" && !b), true, "J for true and N for false"
	}
	return true, false, ""
}

// understood reports that a value consists of operations whose meaning the
// text algebra knows.
func understood(v Val) bool {
	ok := true
	walk(v, func(x Val) bool {
		if t, isT := x.(*Term); isT {
			switch {
			case strings.HasPrefix(t.Op, "call:"), strings.HasPrefix(t.Op, "mut"), strings.HasPrefix(t.Op, "make#"), strings.HasPrefix(t.Op, "sprintf"), strings.HasPrefix(t.Op, "phi"), t.Op == "slice", t.Op == "bytes", strings.HasPrefix(t.Op, "rune"), t.Op == "byte1":
				ok = false
			}
		}
		return ok
	})
	return ok
}

// shifted reports a decoded date or time that was changed afterwards.
func shifted(v Val) bool {
	t, ok := v.(*Term)
	return ok && strings.HasPrefix(t.Op, "call:(time.Time).") && mentionsOp(t, "cut:")
}

func sameValue(pr primitive, st *State, got, want Val) bool {
	got, want = stripConv(st.resolve(got)), stripConv(st.resolve(want))
	if got.Key() == want.Key() {
		return true
	}
	if b, ok := asBool(got); ok {
		w, known := st.truth(want)
		return known && w == b
	}
	if t, ok := got.(*Term); ok && strings.HasPrefix(t.Op, "cut:") {
		// a date or time keeps the places its layout shows
		return t.A[0].Key() == want.Key() && (t.Op == "cut:20060102" && strings.Contains(pr.n.Obj().Name(), "Date") || t.Op == "cut:150405" && strings.Contains(pr.n.Obj().Name(), "Time"))
	}
	return false
}

func (c *Ctx) roundTrip(pr primitive, format, accepted, readBack string) {
	lab := pr.fn.Name()
	in := c.textInterp()
	defer c.use(in)
	st := c.P.NewState()
	args := symArgs(st, pr.fn)
	pos := c.P.Pos(pr.fn.Pos())
	marshal := c.P.MethodOpt(types.NewPointer(pr.n), "MarshalHBCI")
	unmarshal := c.P.MethodOpt(types.NewPointer(pr.n), "UnmarshalHBCI")
	if p := args[pr.value]; isByteSlice(pr.fn.Params[pr.value].Type()) {
		nonNilTerm(st, p.(*Term))
	}
	for _, p := range in.Run(st, pr.fn, args...) {
		if p.Kind != "return" {
			continue
		}
		p.St.frames = nil
		for _, q := range in.Run(p.St, marshal, p.Res[0]) {
			if q.Kind != "return" {
				c.Check(readBack, lab, false, c.P.Pos(marshal.Pos()), "writing a value ends with %s %s", q.Kind, q.Where)
				continue
			}
			v := args[pr.value]
			w := in.bytesTerm(q.St, q.Res[0])
			if ok, decided, want := wireFormat(pr, q.St, v, args, w); format != "" {
				if !decided {
					ok = true
				}
				if !ok && !understood(w) && !mentionsOp(w, "float:") && !mentionsOp(w, "fmt:") {
					c.Undecided(format, lab, "written as "+shortKey(w.Key()))
				} else {
					c.Check(format, lab, ok, c.P.Pos(marshal.Pos()), "%s is written as %s, not as %s", lab, shortKey(w.Key()), want)
				}
			}
			q.St.frames = nil
			for _, before := range []bool{false, true} {
				s := q.St.clone()
				rlab := lab
				recv := &Ptr{Obj: s.alloc(zero(pr.n))}
				if before {
					rlab += " over an earlier value"
					var old []Val
					for i, x := range pr.fn.Params {
						t := sym(fmt.Sprintf("old:%d:%s", i, x.Name()), x.Type())
						if isNillable(x.Type()) {
							nonNilTerm(s, t)
						}
						old = append(old, t)
					}
					for _, x := range in.Run(s, pr.fn, old...) {
						if pt, ok := x.St.resolve(x.Res[0]).(*Ptr); ok && x.Kind == "return" {
							s, recv = x.St, pt
							s.frames = nil
							break
						}
					}
				}
				c.readBackFrom(in, pr, s, recv, unmarshal, w, v, rlab, pos, accepted, readBack)
			}
		}
	}
}

func (c *Ctx) readBackFrom(in *Interp, pr primitive, st *State, recv *Ptr, unmarshal *ssa.Function, w, v Val, lab, pos, accepted, readBack string) {
	upos := c.P.Pos(unmarshal.Pos())
	for _, r := range in.Run(st, unmarshal, recv, retypeStr(w, tBytes)) {
		if r.Kind == "panic" {
			c.Check(accepted, lab, false, upos, "reading %s panics: %s", shortKey(w.Key()), r.Where)
			continue
		}
		if r.Kind != "return" {
			c.Undecided(accepted, lab, r.Kind+" "+r.Where)
			continue
		}
		if r.failed() {
			clear := understood(w)
			r.St.conds(func(t *Term, b bool) {
				if !understood(t) {
					clear = false
				}
			})
			if clear {
				c.Check(accepted, lab, false, upos, "reading %s is refused: %s", shortKey(w.Key()), shortKey(in.deep(r.St, r.Res[0]).Key()))
			} else {
				c.Undecided(accepted, lab, "reading "+shortKey(w.Key())+" may be refused")
			}
			continue
		}
		c.Check(accepted, lab, true, upos, "")
		r.St.frames = nil
		for _, x := range in.Run(r.St, pr.val, recv) {
			if x.Kind != "return" {
				c.Check(readBack, lab, false, c.P.Pos(pr.val.Pos()), "the accessor ends with %s %s", x.Kind, x.Where)
				continue
			}
			got := in.bytesTerm(x.St, x.Res[0])
			ok := sameValue(pr, x.St, got, v)
			if !ok && !understood(got) && !shifted(got) {
				c.Undecided(readBack, lab, "read back as "+shortKey(got.Key()))
				continue
			}
			c.Check(readBack, lab, ok, upos, "the value written as %s is read back as %s", shortKey(w.Key()), shortKey(got.Key()))
		}
	}
}
