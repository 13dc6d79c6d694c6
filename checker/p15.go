package main

import (
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strings"
	"time"
)

func init() { checks["P15"] = checkP15 }

// tagPath is a path of an Unmarshal method and the object it filled.
type tagPath struct {
	Path
	obj int
}

// tagInterp reads texts made of fields.
func (c *Ctx) tagInterp() *Interp {
	in := c.textInterp()
	in.Hook = swiftHook
	in.MaxPaths = 400
	in.MaxVisit = 60
	return in
}

// tagValue runs the Unmarshal method of a type of package swift on a text.
func (c *Ctx) tagValue(name string, valid bool, parts ...Val) (*types.Named, []tagPath) {
	n := c.P.TypeNamed("swift", name)
	f := c.P.MethodOpt(types.NewPointer(n), "Unmarshal")
	in := c.tagInterp()
	if valid {
		in.Hook = validDates(swiftHook)
	}
	st := c.P.NewState()
	o := st.alloc(zero(n))
	var out []tagPath
	for _, p := range in.Run(st, f, &Ptr{Obj: o}, catOf(tBytes, parts...)) {
		out = append(out, tagPath{p, o})
	}
	c.use(in)
	return n, out
}

// want is the expected content of a field.
type want map[string]Val

func amountOf(name string) []Val {
	return []Val{fld(name, 5, "d"), cStr(","), fld(name+"c", 2, "d")}
}

func amountWant(name string) Val {
	return mk("number", types.Typ[types.Float64], catOf(tString, fld(name, 5, "d"), cStr("."), fld(name+"c", 2, "d")))
}

func dayWant(s string) Val { return mk("day:20060102", tString, cStr(s)) }
func numWant(v Val) Val    { return mk("number", tInt, v) }

// plainText drops the conversions from the character set of the bank.
func plainText(v Val) Val {
	if t, ok := v.(*Term); ok {
		if strings.HasPrefix(t.Op, "dec:") && len(t.A) == 1 {
			return plainText(t.A[0])
		}
		if t.Op == "conv" && len(t.A) == 1 {
			if a := valType(t.A[0]); a != nil && (isString(a) || isByteSlice(a)) && (isString(t.T) || isByteSlice(t.T)) {
				return plainText(t.A[0])
			}
		}
		if t.Op == "cat" {
			var l []Val
			for _, a := range t.A {
				l = append(l, plainText(a))
			}
			return joined(catOf(tString, l...))
		}
		if len(t.A) > 0 && t.Op != "cat" {
			var l []Val
			for _, a := range t.A {
				l = append(l, plainText(a))
			}
			if strings.HasPrefix(t.Op, "day:") {
				return mk("day", tString, l...)
			}
			return mk(t.Op, t.T, l...)
		}
	}
	if ic, ok := v.(*Iface); ok {
		return plainText(ic.V)
	}
	return v
}

// fieldsIn names the fields a value is made from.
func fieldsIn(v Val) string {
	m := map[string]bool{}
	walk(v, func(x Val) bool {
		if t, ok := x.(*Term); ok && isFld(t) {
			m[fldOf(t).name] = true
		}
		return true
	})
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

// opaque names an operation in a value whose effect is not known.
func opaque(v Val) (op string) {
	walk(v, func(x Val) bool {
		t, ok := x.(*Term)
		if !ok || op != "" {
			return op == ""
		}
		switch t.Op {
		case "cat", "number", "day", "conv", "neg", "itoa", "year", "month", "shortened":
			return true
		}
		if isFld(t) || strings.HasPrefix(t.Op, "shift:") || strings.HasPrefix(t.Op, "day:") || strings.HasPrefix(t.Op, "dec:") || strings.HasPrefix(t.Op, "enc:") {
			return true
		}
		op = t.Op
		return false
	})
	return
}

// same compares a stored value with the expected one.
func sameField(in *Interp, st *State, got, exp Val) (ok, known bool, text string) {
	got = st.resolve(got)
	if exp == nil { // absent
		if isNil(got) {
			return true, true, "nil"
		}
		if t := valType(got); t != nil && (isString(t) || isByteSlice(t)) {
			s, isS := asStr(stripConv(in.bytesTerm(st, got)))
			return isS && s == "", true, shown(got)
		}
		if n, isN := asInt(got); isN {
			return n == 0, true, fmt.Sprint(n)
		}
		if fieldsIn(got) == "" && !mentionsOp(got, "day") {
			return true, true, keyOf(got)
		}
		return false, true, keyOf(got)
	}
	if t := valType(got); t != nil && (isString(t) || isByteSlice(t)) {
		got = stripConv(in.bytesTerm(st, got))
	}
	if s, isS := got.(*Struct); isS && len(s.F) == 1 { // a date
		got = st.resolve(expand(s.F[0]))
	}
	got = wholeTerm(in.deep(st, got))
	if l, isT := exp.(*Term); isT && l.Op == "list" {
		d := in.deep(st, got)
		sq, isSeq := d.(*Seq)
		if isNil(d) {
			return false, true, "nothing"
		}
		if !isSeq {
			return false, fieldsIn(d) != fieldsIn(exp), cut(keyOf(d))
		}
		ok, known = len(sq.P) == len(l.A), true
		for i, p := range sq.P {
			if p.Spread {
				return false, false, cut(keyOf(d))
			}
			if i < len(l.A) {
				o, k, _ := sameField(in, st, p.V, l.A[i])
				ok = ok && o
				known = known && (o || k)
			}
		}
		return ok, known, cut(keyOf(d))
	}
	g, e := plainText(in.deep(st, got)), plainText(exp)
	if isS := valType(exp); isS != nil && isString(isS) {
		g, e = joined(g), joined(e)
	}
	text = cut(keyOf(g))
	if sameKey(g, e) {
		return true, true, text
	}
	return false, fieldsIn(g) != fieldsIn(e) || opaque(g) == "", text
}

func sameKey(a, b Val) bool {
	if a.Key() == b.Key() {
		return true
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 || x.Op != y.Op || len(x.A) != len(y.A) {
		return flatText(a) == flatText(b) && flatText(a) != ""
	}
	for i := range x.A {
		if !sameKey(x.A[i], y.A[i]) {
			return false
		}
	}
	return true
}

// expectFields compares the fields of a decoded struct with what is wanted.
func (c *Ctx) expectFields(rule, lab string, where string, in *Interp, st *State, obj Val, w want) {
	s := structOf(st, obj)
	if s == nil || s.T == nil {
		c.Check(rule, lab, false, where, "%s yields %s", lab, cut(keyOf(obj)))
		return
	}
	ty := under(s.T).(*types.Struct)
	var names []string
	for n := range w {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		v := fieldNamed(st, s, ty, n)
		if v == nil {
			c.Undecided(rule, lab+" "+n, "no such attribute")
			continue
		}
		ok, known, text := sameField(in, st, v, w[n])
		if !ok && !known {
			c.Undecided(rule, lab+" "+n, "the value passes "+text)
			continue
		}
		e := "nothing"
		if w[n] != nil {
			e = cut(keyOf(plainText(w[n])))
		}
		c.Check(rule, lab+" "+n, ok, where, "%s: %s becomes %s, expected %s", lab, n, text, e)
	}
}

func structOf(st *State, v Val) *Struct {
	v = st.resolve(expand(v))
	if ic, ok := v.(*Iface); ok {
		v = st.resolve(ic.V)
	}
	if p, ok := v.(*Ptr); ok {
		x, ok := getPath(st.get(p.Obj), p.Path)
		if !ok {
			return nil
		}
		v = expand(x)
	}
	s, _ := v.(*Struct)
	return s
}

// fieldNamed finds an attribute by its name, "A.B" for an attribute within one.
func fieldNamed(st *State, s *Struct, ty *types.Struct, name string) Val {
	head, rest, nested := strings.Cut(name, ".")
	for i := 0; i < ty.NumFields(); i++ {
		if ty.Field(i).Name() != head || i >= len(s.F) {
			continue
		}
		v := s.F[i]
		if v == nil {
			v = zero(ty.Field(i).Type())
		}
		if !nested {
			return v
		}
		x := structOf(st, v)
		if x == nil || x.T == nil {
			return nil
		}
		return fieldNamed(st, x, under(x.T).(*types.Struct), rest)
	}
	return nil
}

// readTag checks what one tag text is decoded into.
func (c *Ctx) readTag(typ, lab string, parts []Val, w want) {
	n, ps := c.tagValue(typ, true, parts...)
	where := c.P.Pos(n.Obj().Pos())
	lab = typ + " " + lab
	c.eachReturn("fields", lab, where, ps, func(q tagPath) {
		c.expectFields("fields", lab, where, c.tagInterp(), q.St, &Ptr{Obj: q.obj}, w)
	})
}

// eachReturn visits the successful paths; a crash or an error on valid input is a violation.
func (c *Ctx) eachReturn(rule, lab, where string, ps []tagPath, visit func(tagPath)) {
	for _, q := range ps {
		cond, feasible := unevaluated(q)
		if !feasible {
			continue
		}
		switch {
		case cond != "":
			c.Undecided(rule, lab, "depends on "+cut(cond))
		case q.Kind == "trunc":
			c.Undecided(rule, lab, "not followed to the end: "+q.Where)
		case q.Kind != "return":
			c.Check(rule, lab, false, where, "%s: %s in %s", lab, q.Kind, q.Where)
		case q.failed():
			if mentionsOp(q.Res[len(q.Res)-1], "fault:") || q.Where != "" && len(ps) == 1 {
				c.Check(rule, lab, false, where, "%s is rejected: %s", lab, cut(keyOf(q.Res[len(q.Res)-1])))
			} else {
				c.Undecided(rule, lab, "rejected on a path: "+cut(keyOf(q.Res[len(q.Res)-1])))
			}
		default:
			visit(q)
		}
	}
}

// unevaluated is a condition on the path that does not depend on the text read:
// one the rules here cannot evaluate, so that the path need not exist.
func unevaluated(q tagPath) (text string, feasible bool) {
	feasible = true
	q.St.conds(func(t *Term, b bool) {
		r, ok := evalDate(t, nil)
		if ok && t.Op != "valid" {
			feasible = feasible && r == any(b)
			return
		}
		if !ok && fieldsIn(t) == "" && (text == "" || t.Key() < text) {
			text = t.Key()
		}
	})
	return
}

func checkP15(c *Ctx) {
	c.Rule("fields", "each part of a tag's text is stored in its own attribute, for every combination of optional parts and every order of purpose fields", 120)
	c.Rule("dates", "two digit years denote 1980 to 2079; a booking date without a year lies in the year next to the value date", 4)
	c.Rule("assignment", "each tag of a statement lands in its own attribute, each purpose text at the booking it follows, bookings in the order of the statement", 20)
	c.Rule("signs", "debit and reversed credit are negative, credit and reversed debit positive, for bookings and balances", 6)
	c.Rule("transactions", "each booking yields one transaction, with every attribute from the tag that carries it", 20)
	c.Rule("messages", "every statement of the data is decoded and its bookings are returned in order", 3)
	c.swiftTags(c.readTag)
	c.statementDates()
	c.statement()
}

// swiftTags enumerates tag texts and what they mean.
func (c *Ctx) swiftTags(read func(typ, lab string, parts []Val, w want)) {
	bank, acc := fld("bank", 8, "d"), fld("account", 10, "t")
	read("AccountTag", "25", []Val{cStr(":25:"), bank, cStr("/"), acc}, want{"Tag": cStr(":25:"), "BankID": bank, "AccountID": acc})
	num, sheet := fld("number", 5, "d"), fld("sheet", 3, "d")
	read("StatementNumberTag", "with sheet", []Val{cStr(":28C:"), num, cStr("/"), sheet}, want{"Tag": cStr(":28C:"), "Number": numWant(num), "SheetNumber": numWant(sheet)})
	read("StatementNumberTag", "without sheet", []Val{cStr(":28C:"), num}, want{"Tag": cStr(":28C:"), "Number": numWant(num), "SheetNumber": nil})
	txt := fld("text", 12, "t")
	cur := fld("currency", 3, "u")
	for _, mark := range []string{"C", "D"} {
		for _, id := range []string{":60F:", ":62M:", ":64:", ":65:"} {
			parts := append([]Val{cStr(id + mark + "151130"), cur}, amountOf("amount")...)
			read("BalanceTag", mark+" "+id, parts, want{"Tag": cStr(id), "DebitCreditIndicator": cStr(mark), "BookingDate": dayWant("20151130"), "Currency": cur, "Amount": amountWant("amount")})
		}
		parts := []Val{cStr(":60F:" + mark + "151130"), cur, fld("amount", 5, "d"), cStr(",")}
		read("BalanceTag", mark+" without decimals", parts, want{"Currency": cur, "Amount": mk("number", types.Typ[types.Float64], catOf(tString, fld("amount", 5, "d"), cStr(".")))})
	}
	_ = txt
	key := fld("key", 3, "u")
	ref, bref, info := fld("ref", 7, "t"), fld("bankref", 9, "t"), fld("info", 13, "t")
	for _, mark := range []string{"D", "C", "RD", "RC"} {
		for _, kind := range []string{"", "R"} {
			for opt := 0; opt < 8; opt++ {
				if opt != 0 && opt != 7 && mark != "D" {
					continue
				}
				w := want{"Tag": cStr(":61:"), "ValutaDate": dayWant("20151130"), "DebitCreditIndicator": cStr(mark), "CurrencyKind": nil, "Amount": amountWant("amount"), "BookingKey": key, "Reference": ref, "BankReference": nil, "AdditionalInformation": nil, "BookingDate": nil}
				head := ":61:151130"
				lab := mark
				if opt&1 != 0 {
					head += "1202"
					w["BookingDate"] = dayWant("20151202")
					lab += " booked"
				}
				if kind != "" {
					w["CurrencyKind"] = cStr(kind)
					lab += " " + kind
				}
				parts := append([]Val{cStr(head + mark + kind)}, amountOf("amount")...)
				parts = append(parts, cStr("N"), key, ref)
				if opt&2 != 0 {
					parts = append(parts, cStr("//"), bref)
					w["BankReference"] = bref
					lab += " bank reference"
				}
				if opt&4 != 0 {
					parts = append(parts, cStr("\r\n/"), info)
					w["AdditionalInformation"] = info
					lab += " information"
				}
				read("TransactionTag", lab, parts, w)
			}
		}
	}
	// purpose fields
	type sub struct {
		key, attr string
		n         int
	}
	subs := []sub{{"00", "BookingText", 11}, {"10", "PrimanotenNumber", 4}, {"20", "Purpose", 27}, {"21", "Purpose", 26}, {"22", "Purpose", 25}, {"23", "Purpose", 24}, {"24", "Purpose", 23}, {"25", "Purpose", 22},
		{"26", "Purpose", 21}, {"27", "Purpose", 20}, {"28", "Purpose", 19}, {"29", "Purpose", 18}, {"30", "BankID", 8}, {"31", "AccountID", 12}, {"32", "Name", 14}, {"33", "Name", 15}, {"34", "MessageKeyAddition", 3},
		{"60", "Purpose2", 16}, {"61", "Purpose2", 17}, {"62", "Purpose2", 10}, {"63", "Purpose2", 9}}
	purpose := func(lab string, order []int, wrap bool) {
		gvc := fld("gvc", 3, "d")
		parts := []Val{cStr(":86:"), gvc}
		w := want{"Tag": cStr(":86:"), "TransactionID": numWant(gvc), "BookingText": nil, "PrimanotenNumber": nil, "BankID": nil, "AccountID": nil, "Name": nil, "MessageKeyAddition": nil, "Purpose": nil, "Purpose2": nil}
		lists := map[string][]Val{}
		var name []Val
		for i, k := range order {
			s := subs[k]
			class := "t"
			if s.key == "34" {
				class = "d"
			}
			f := fld("?"+s.key, s.n, class)
			sep := "?" + s.key
			if wrap && i%2 == 1 {
				sep = "\r\n" + sep
			}
			parts = append(parts, cStr(sep), f)
			switch s.attr {
			case "Purpose", "Purpose2":
				lists[s.attr] = append(lists[s.attr], f)
			case "Name":
				if s.key == "33" {
					name = append(name, cStr(" "))
				}
				name = append(name, f)
				w["Name"] = catOf(tString, name...)
			case "MessageKeyAddition":
				w[s.attr] = numWant(f)
			default:
				w[s.attr] = f
			}
		}
		for a, l := range lists {
			w[a] = mk("list", tString, l...)
		}
		read("CustomFieldTag", lab, parts, w)
	}
	all := make([]int, len(subs))
	for i := range all {
		all[i] = i
	}
	purpose("all fields", all, false)
	purpose("all fields, wrapped", all, true)
	purpose("none", nil, false)
	for i := range subs {
		purpose("only ?"+subs[i].key, []int{i}, false)
		var rest []int
		for j := range subs {
			if j != i {
				rest = append(rest, j)
			}
		}
		purpose("all but ?"+subs[i].key, rest, false)
	}
	purpose("names first", []int{14, 15, 12, 13, 0, 2, 3, 4, 17, 18, 16, 1}, false)
	purpose("further purpose first", []int{17, 18, 19, 20, 2, 3, 14, 0}, false)
}

// evalDate evaluates a value made of fields for given field contents: the
// formula of a date is compared with the calendar for every value of its parts.
func evalDate(v Val, env map[string]string) (any, bool) {
	switch x := v.(type) {
	case *Const:
		if s, ok := asStr(x); ok {
			return s, true
		}
		if n, ok := asInt(x); ok {
			return int64(n), true
		}
		if b, ok := asBool(x); ok {
			return b, true
		}
	case *Iface:
		return evalDate(x.V, env)
	case *Struct:
		if w := wholeTerm(x); w != Val(x) {
			return evalDate(w, env)
		}
	case *Term:
		if isFld(x) {
			f := fldOf(x)
			s := env[f.name]
			if f.off+f.len > len(s) {
				return nil, false
			}
			return s[f.off : f.off+f.len], true
		}
		if x.Op == "cat" {
			out := ""
			for _, a := range x.A {
				r, ok := evalDate(a, env)
				s, isS := r.(string)
				if !ok || !isS {
					return nil, false
				}
				out += s
			}
			return out, true
		}
		if x.Op == "val" {
			if s, has := env["LEAF:"+x.A[0].Key()]; has {
				d, err := time.Parse("2006-01-02 15:04:05", s)
				return d, err == nil
			}
		}
		if strings.Contains(x.Op, "time.UTC") || x.Op == "*" && strings.Contains(x.Key(), "time.UTC") {
			return time.UTC, true
		}
		var a []any
		for _, y := range x.A {
			r, ok := evalDate(y, env)
			if !ok {
				return nil, false
			}
			a = append(a, r)
		}
		num := func(i int) int64 {
			if i < len(a) {
				switch n := a[i].(type) {
				case int64:
					return n
				case time.Month:
					return int64(n)
				}
			}
			return 0
		}
		text := func(i int) string {
			if i < len(a) {
				s, _ := a[i].(string)
				return s
			}
			return ""
		}
		day := func(i int) (time.Time, bool) {
			if i < len(a) {
				d, ok := a[i].(time.Time)
				return d, ok
			}
			return time.Time{}, false
		}
		switch {
		case x.Op == "conv" || x.Op == "iconv" || strings.HasPrefix(x.Op, "dec:"):
			return a[0], true
		case x.Op == "itoa":
			return fmt.Sprint(num(0)), true
		case x.Op == "pad0":
			return fmt.Sprintf("%0*d", int(num(1)), num(0)), true
		case strings.HasPrefix(x.Op, "low:"):
			s := fmt.Sprint(num(0))
			n := 0
			fmt.Sscanf(x.Op, "low:%d", &n)
			if n > len(s) {
				return nil, false
			}
			return s[len(s)-n:], true
		case x.Op == "slice" && len(a) == 3:
			s, l, h := text(0), num(1), num(2)
			if l < 0 || h < l || int(h) > len(s) {
				return nil, false
			}
			return s[l:h], true
		case x.Op == "len":
			return int64(len(text(0))), true
		case x.Op == "number":
			var n int64
			for _, r := range text(0) {
				if r < '0' || r > '9' {
					return nil, false
				}
				n = n*10 + int64(r-'0')
			}
			return n, true
		case strings.HasPrefix(x.Op, "day:"):
			d, err := time.Parse(x.Op[4:], text(0))
			return d, err == nil
		case x.Op == "valid":
			return true, true
		case x.Op == "ends":
			return strings.HasSuffix(text(0), text(1)), true
		case strings.HasPrefix(x.Op, "shift:"):
			d, ok := day(0)
			var y, m, t int
			if n, _ := fmt.Sscanf(x.Op, "shift:%d:%d:%d", &y, &m, &t); n != 3 || !ok {
				return nil, false
			}
			return d.AddDate(y, m, t), true
		case x.Op == "year" || x.Op == "month" || x.Op == "dayof":
			d, ok := day(0)
			if !ok {
				return nil, false
			}
			return map[string]int64{"year": int64(d.Year()), "month": int64(d.Month()), "dayof": int64(d.Day())}[x.Op], true
		case x.Op == "call:time.Date" && len(a) == 8:
			return time.Date(int(num(0)), time.Month(num(1)), int(num(2)), int(num(3)), int(num(4)), int(num(5)), int(num(6)), time.UTC), true
		case x.Op == "call:(time.Time).AddDate" && len(a) == 4:
			d, ok := day(0)
			return d.AddDate(int(num(1)), int(num(2)), int(num(3))), ok
		case x.Op == "call:(time.Time).Before" || x.Op == "call:(time.Time).After" || x.Op == "call:(time.Time).Equal":
			d, ok := day(0)
			e, ok2 := day(1)
			if !ok || !ok2 {
				return nil, false
			}
			return map[string]bool{"Before": d.Before(e), "After": d.After(e), "Equal": d.Equal(e)}[x.Op[17:]], true
		case x.Op == "call:(time.Time).Sub":
			d, ok := day(0)
			e, ok2 := day(1)
			return int64(d.Sub(e)), ok && ok2
		case x.Op == "call:math.Abs":
			n := num(0)
			if n < 0 {
				n = -n
			}
			return n, true
		case strings.HasPrefix(x.Op, "call:(time."):
			return timeMethod(x.Op, a)
		case x.Op == "!" || x.Op == "not":
			b, ok := a[0].(bool)
			return !b, ok
		case len(a) == 1 && (x.Op == "-" || x.Op == "neg"):
			return -num(0), true
		case len(a) == 2:
			m, n := num(0), num(1)
			s, isS := a[0].(string)
			t, isT := a[1].(string)
			switch x.Op {
			case "+":
				return m + n, true
			case "-":
				return m - n, true
			case "*":
				return m * n, true
			case "/", "%":
				if n == 0 {
					return nil, false
				}
				if x.Op == "/" {
					return m / n, true
				}
				return m % n, true
			case "<":
				if isS && isT {
					return s < t, true
				}
				return m < n, true
			case "<=":
				if isS && isT {
					return s <= t, true
				}
				return m <= n, true
			case "==":
				if isS && isT {
					return s == t, true
				}
				return m == n, true
			}
		}
	}
	return nil, false
}

// timeMethod applies a method of a time, month, duration or location.
func timeMethod(op string, a []any) (any, bool) {
	rest := strings.TrimPrefix(op, "call:(time.")
	typ, name, ok := strings.Cut(rest, ").")
	if !ok || len(a) == 0 {
		return nil, false
	}
	name, nth, _ := strings.Cut(name, ".")
	i := 0
	fmt.Sscan(nth, &i)
	recv := a[0]
	if n, isN := recv.(int64); isN {
		switch typ {
		case "Duration":
			recv = time.Duration(n)
		case "Month":
			recv = time.Month(n)
		}
	}
	m := reflect.ValueOf(recv).MethodByName(name)
	if !m.IsValid() || m.Type().NumIn() != len(a)-1 || i >= m.Type().NumOut() {
		return nil, false
	}
	var args []reflect.Value
	for k, y := range a[1:] {
		v := reflect.ValueOf(y)
		T := m.Type().In(k)
		if !v.IsValid() || !v.CanConvert(T) {
			return nil, false
		}
		args = append(args, v.Convert(T))
	}
	switch r := m.Call(args)[i].Interface().(type) {
	case int:
		return int64(r), true
	case time.Month:
		return int64(r), true
	case time.Duration:
		return int64(r), true
	case time.Weekday:
		return int64(r), true
	default:
		return r, true
	}
}

// dateOn is the value an attribute has for given field contents.
func dateOn(in *Interp, ps []tagPath, attr string, env map[string]string) (d time.Time, known bool, why string) {
	known = true
	found := 0
	for _, q := range ps {
		if q.Kind != "return" {
			return d, false, q.Kind + " " + q.Where
		}
		holds := true
		q.St.conds(func(t *Term, b bool) {
			args := make([]Val, len(t.A))
			for i, a := range t.A {
				args[i] = in.deep(q.St, a)
			}
			deep := &Term{Op: t.Op, A: args, T: t.T}
			if r, ok := evalDate(deep, env); ok {
				if x, isB := r.(bool); isB && x != b {
					holds = false
				}
			}
		})
		if !holds {
			continue
		}
		if q.failed() {
			return d, true, "rejected"
		}
		s := structOf(q.St, &Ptr{Obj: q.obj})
		v := fieldNamed(q.St, s, under(s.T).(*types.Struct), attr)
		if v == nil {
			return d, false, "no attribute " + attr
		}
		x := q.St.resolve(v)
		if y, ok := x.(*Struct); ok && len(y.F) == 1 {
			x = q.St.resolve(y.F[0])
		}
		x = wholeTerm(in.deep(q.St, x))
		r, ok := evalDate(x, env)
		e, isD := r.(time.Time)
		if !ok || !isD {
			if mentionsOp(x, "call:time.Now") {
				return d, true, "depends on the time of reading: " + cut(keyOf(x))
			}
			return d, false, "the date is " + cut(keyOf(x))
		}
		if found > 0 && !e.Equal(d) {
			return d, false, "several dates"
		}
		d = e
		found++
	}
	if found == 0 {
		return d, false, "no path"
	}
	return
}

// statementDates compares the formulas of the dates with the calendar.
func (c *Ctx) statementDates() {
	amount := amountOf("amount")
	tail := []Val{cStr("N"), fld("key", 3, "u"), fld("ref", 7, "t")}
	century := func(typ, attr string, parts ...Val) {
		n, ps := c.tagValue(typ, true, parts...)
		where := c.P.Pos(n.Obj().Pos())
		lab := typ + " " + attr
		for yy := 0; yy < 100; yy++ {
			want := time.Date(2000+yy, 6, 15, 0, 0, 0, 0, time.UTC)
			if yy >= 80 {
				want = want.AddDate(-100, 0, 0)
			}
			text := want.Format("060102")
			got, known, why := dateOn(c.tagInterp(), ps, attr, map[string]string{"valuta": text, "booked": "0615"})
			if !known {
				c.Undecided("dates", lab, why)
				continue
			}
			c.Check("dates", lab, why == "" && got.Equal(want), where, "%s: %s is read as %s %s", lab, text, got.Format("2006-01-02"), why)
		}
	}
	for _, mark := range []string{"C", "D"} {
		century("BalanceTag", "BookingDate", append([]Val{cStr(":60F:" + mark), fld("valuta", 6, "d"), cStr("EUR")}, amount...)...)
	}
	century("TransactionTag", "ValutaDate", append(append([]Val{cStr(":61:"), fld("valuta", 6, "d"), cStr("D")}, amount...), tail...)...)
	century("TransactionTag", "BookingDate", append(append([]Val{cStr(":61:"), fld("valuta", 6, "d"), fld("booked", 4, "d"), cStr("D")}, amount...), tail...)...)
	n, ps := c.tagValue("TransactionTag", true, append(append([]Val{cStr(":61:"), fld("valuta", 6, "d"), fld("booked", 4, "d"), cStr("CR")}, amount...), tail...)...)
	where := c.P.Pos(n.Obj().Pos())
	for m := 1; m <= 12; m++ {
		for b := 1; b <= 12; b++ {
			valuta := time.Date(2015, time.Month(m), 15, 0, 0, 0, 0, time.UTC)
			want := time.Date(2015, time.Month(b), 15, 0, 0, 0, 0, time.UTC)
			switch {
			case m-b > 6:
				want = want.AddDate(1, 0, 0)
			case b-m > 6:
				want = want.AddDate(-1, 0, 0)
			case m-b == 6 || b-m == 6:
				continue // half a year away on both sides
			}
			got, known, why := dateOn(c.tagInterp(), ps, "BookingDate", map[string]string{"valuta": valuta.Format("060102"), "booked": want.Format("0102")})
			if !known {
				c.Undecided("dates", "year of the booking date", why)
				continue
			}
			c.Check("dates", "year of the booking date", why == "" && got.Equal(want), where, "value date %s, booking date %s is read as %s %s", valuta.Format("2006-01-02"), want.Format("0102"), got.Format("2006-01-02"), why)
		}
	}
}

// bookings of the statements put together below.
type booking struct {
	mark, kind, booked string
	purpose            bool
}

var statements = [][]booking{
	{{"D", "", "", true}, {"RC", "", "1202", false}, {"C", "R", "1203", true}, {"RC", "R", "", true}},
	{{"RD", "R", "", true}, {"D", "R", "1201", true}, {"RD", "", "", false}, {"C", "", "1202", true}},
}

// statementTags are the tags of the i-th statement.
func statementTags(i int) (tags [][]Val) {
	id := fmt.Sprint(i)
	f := func(n string, l int, class string) Val { return fld(n+id, l, class) }
	add := func(vs ...Val) { tags = append(tags, vs) }
	bal := func(tag, mark, day, name string) {
		add(append([]Val{cStr(tag + mark + day), f(name+"cur", 3, "u")}, amountOf(name+id)...)...)
	}
	add(cStr(":20:"), f("job", 16, "t"))
	add(cStr(":21:"), f("related", 15, "t"))
	add(cStr(":25:"), f("bank", 8, "d"), cStr("/"), f("account", 10, "t"))
	add(cStr(":28C:"), f("number", 5, "d"), cStr("/"), f("sheet", 2, "d"))
	bal([]string{":60F:", ":60M:"}[i], []string{"D", "C"}[i], "15112"+id, "open")
	for k, b := range statements[i] {
		n := fmt.Sprintf("%s.%d", id, k)
		vs := append([]Val{cStr(":61:15113" + "0" + b.booked + b.mark + b.kind)}, amountOf("amount"+n)...)
		add(append(vs, cStr("N"), fld("key"+n, 3, "u"), fld("ref"+n, 7+k, "t"))...)
		if b.purpose {
			add(cStr(":86:"), fld("gvc"+n, 3, "d"), cStr("?00"), fld("kind"+n, 8, "t"), cStr("?20"), fld("p20"+n, 27, "t"), cStr("?21"), fld("p21"+n, 26, "t"), cStr("?30"), fld("bic"+n, 9, "t"), cStr("?31"), fld("iban"+n, 20, "t"),
				cStr("?32"), fld("name"+n, 19, "t"), cStr("?60"), fld("p60"+n, 23, "t"), cStr("?61"), fld("p61"+n, 22, "t"))
		}
	}
	bal([]string{":62F:", ":62M:"}[i], []string{"C", "D"}[i], "15122"+id, "close")
	bal(":64:", "C", "15123"+id, "current")
	bal(":65:", "D", "16011"+id, "future")
	add(cStr(":86:"), f("gvc", 3, "d"), cStr("?00"), f("summary", 12, "t"))
	return
}

// statementHook replaces the splitting of data into statements and of
// statements into tags.
func statementHook(p *Prog, converted ...func([]string)) func(*Call) ([]Outcome, bool) {
	inner := validDates(swiftHook)
	return func(k *Call) ([]Outcome, bool) {
		if k.Callee != nil && k.Callee.Pkg != nil && pkgRel(k.Callee) == "swift" {
			sg := k.Callee.Signature
			r := sg.Results()
			if r.Len() == 2 && isError(r.At(1).Type()) && types.Identical(r.At(0).Type(), types.NewSlice(tBytes)) && len(k.Args) > 0 {
				of := ""
				var convs []string
				for _, a := range k.Args {
					walk(k.In.deep(k.St, a), func(x Val) bool {
						if t, ok := x.(*Term); ok && (strings.HasPrefix(t.Op, "dec:") || strings.HasPrefix(t.Op, "enc:")) && (mentionsOp(t, "swiftdata") || mentionsOp(t, "message:")) {
							convs = append(convs, t.Op)
						}
						if t, ok := x.(*Term); ok && (t.Op == "swiftdata" || strings.HasPrefix(t.Op, "message:")) {
							of = t.Op
						}
						return true
					})
				}
				give := func(l []Part) ([]Outcome, bool) {
					return []Outcome{{Res: tuple(k.In.newSlice(k.St, types.NewSlice(tBytes), l), &Nil{tError})}}, true
				}
				if of != "" {
					for _, f := range converted {
						f(convs)
					}
				}
				var l []Part
				if of == "swiftdata" {
					for i := range statements {
						l = append(l, Part{V: nonNilTerm(k.St, mk(fmt.Sprintf("message:%d", i), tBytes))})
					}
					return give(l)
				}
				if of != "" {
					i := int(of[len(of)-1] - '0')
					for _, t := range statementTags(i) {
						l = append(l, Part{V: catOf(tBytes, t...)})
					}
					return give(l)
				}
			}
		}
		return inner(k)
	}
}

func signedAmount(name string, negative bool) Val {
	v := amountWant(name)
	if negative {
		return mk("neg", types.Typ[types.Float64], v)
	}
	return v
}

// statement checks a whole statement and the transactions made from it.
func (c *Ctx) statement() {
	p := c.P
	n := p.TypeNamed("swift", "MT940")
	where := p.Pos(n.Obj().Pos())
	for i := range statements {
		id := fmt.Sprint(i)
		lab := "statement " + id
		in := c.tagInterp()
		in.Hook = statementHook(p)
		in.DeepN = 14
		st := p.NewState()
		o := st.alloc(zero(n))
		var ps []tagPath
		for _, q := range in.Run(st, p.MethodOpt(types.NewPointer(n), "Unmarshal"), &Ptr{Obj: o}, nonNilTerm(st, mk("message:"+id, tBytes))) {
			ps = append(ps, tagPath{q, o})
		}
		c.use(in)
		c.eachReturn("assignment", lab, where, ps, func(q tagPath) {
			f := func(n string, l int, class string) Val { return fld(n+id, l, class) }
			bal := func(tag, mark, day, name string) want {
				return want{"Tag": cStr(tag), "DebitCreditIndicator": cStr(mark), "BookingDate": dayWant("20" + day), "Currency": f(name+"cur", 3, "u"), "Amount": amountWant(name + id)}
			}
			w := want{"Account.BankID": f("bank", 8, "d"), "Account.AccountID": f("account", 10, "t"), "StatementNumber.Number": numWant(f("number", 5, "d")), "StatementNumber.SheetNumber": numWant(f("sheet", 2, "d")), "CustomField.BookingText": f("summary", 12, "t"), "CustomField.TransactionID": numWant(f("gvc", 3, "d"))}
			for _, b := range []struct{ attr, tag, mark, day, name string }{{"StartingBalance", []string{":60F:", ":60M:"}[i], []string{"D", "C"}[i], "15112" + id, "open"}, {"ClosingBalance", []string{":62F:", ":62M:"}[i], []string{"C", "D"}[i], "15122" + id, "close"},
				{"CurrentValutaBalance", ":64:", "C", "15123" + id, "current"}, {"FutureValutaBalance", ":65:", "D", "16011" + id, "future"}} {
				for k, v := range bal(b.tag, b.mark, b.day, b.name) {
					w[b.attr+"."+k] = v
				}
			}
			c.expectFields("assignment", lab, where, in, q.St, &Ptr{Obj: q.obj}, w)
			s := structOf(q.St, &Ptr{Obj: q.obj})
			ty := under(s.T).(*types.Struct)
			for _, a := range []struct {
				attr string
				v    Val
			}{{"JobReference", f("job", 16, "t")}, {"Reference", f("related", 15, "t")}} {
				v := fieldNamed(q.St, s, ty, a.attr)
				if v == nil {
					c.Undecided("assignment", lab+" "+a.attr, "no such attribute")
					continue
				}
				got := onlyText(in, q.St, v)
				ok, known, text := sameField(in, q.St, got, a.v)
				if !ok && !known {
					c.Undecided("assignment", lab+" "+a.attr, text)
					continue
				}
				c.Check("assignment", lab+" "+a.attr, ok, where, "%s: %s becomes %s", lab, a.attr, text)
			}
			trs, ok := listOf(in, q.St, fieldNamed(q.St, s, ty, "Transactions"))
			if !ok {
				c.Undecided("assignment", lab+" bookings", "no list of transactions")
				return
			}
			c.Check("assignment", lab+" bookings", len(trs) == len(statements[i]), where, "%s with %d bookings yields %d", lab, len(statements[i]), len(trs))
			for k, b := range statements[i] {
				if k >= len(trs) {
					break
				}
				n := fmt.Sprintf("%s.%d", id, k)
				w := want{"Transaction.Amount": amountWant("amount" + n), "Transaction.BookingKey": fld("key"+n, 3, "u"), "Transaction.DebitCreditIndicator": cStr(b.mark)}
				if b.purpose {
					w["Description.BookingText"] = fld("kind"+n, 8, "t")
				} else {
					w["Description"] = nil
				}
				c.expectFields("assignment", fmt.Sprintf("%s booking %d", lab, k), where, in, q.St, trs[k], w)
			}
		})
	}
	c.transactions()
}

// onlyText is the one text with fields inside a value, or the value.
func onlyText(in *Interp, st *State, v Val) Val {
	var found []Val
	walk(in.deep(st, v), func(x Val) bool {
		if t, isT := x.(*Term); isT && t.T != nil && isString(t.T) && fieldsIn(x) != "" {
			found = append(found, x)
			return false
		}
		return true
	})
	if len(found) == 1 {
		return found[0]
	}
	return v
}

func listOf(in *Interp, st *State, v Val) (out []Val, ok bool) {
	if v == nil {
		return nil, false
	}
	v = st.resolve(expand(v))
	if isNil(v) {
		return nil, true
	}
	sl, isSl := v.(*Slice)
	if !isSl {
		return nil, false
	}
	ps, ok := in.parts(st, sl)
	if !ok {
		return nil, false
	}
	for _, p := range ps {
		if p.Spread {
			return nil, false
		}
		out = append(out, p.V)
	}
	return out, true
}

// transactions follows the data of two statements to the transactions the
// caller gets.
func (c *Ctx) transactions() {
	p := c.P
	for _, n := range p.typesWith("swift", "UnmarshalMT940") {
		m := p.MethodOpt(types.NewPointer(n), "UnmarshalMT940")
		where := p.Pos(m.Pos())
		in := c.tagInterp()
		in.Hook = statementHook(p)
		in.DeepN = 14
		st := p.NewState()
		o := st.alloc(zero(n))
		var ps []tagPath
		for _, q := range in.Run(st, m, &Ptr{Obj: o}, nonNilTerm(st, mk("swiftdata", tBytes))) {
			ps = append(ps, tagPath{q, o})
		}
		c.use(in)
		c.eachReturn("messages", n.Obj().Name(), where, ps, func(q tagPath) {
			trs, ok := listOf(in, q.St, q.Res[0])
			if !ok {
				c.Undecided("messages", "result", cut(keyOf(q.Res[0])))
				return
			}
			total := 0
			for i := range statements {
				total += len(statements[i])
			}
			c.Check("messages", "number of transactions", len(trs) == total, where, "two statements with %d bookings yield %d transactions", total, len(trs))
			k := 0
			for i, bs := range statements {
				id := fmt.Sprint(i)
				okOrder := true
				for j, b := range bs {
					if k >= len(trs) {
						break
					}
					n := fmt.Sprintf("%s.%d", id, j)
					lab := fmt.Sprintf("statement %d booking %d", i, j)
					cur := fld("opencur"+id, 3, "u")
					w := want{
						"Account.BankID": fld("bank"+id, 8, "d"), "Account.AccountID": fld("account"+id, 10, "t"), "Amount.Currency": cur, "ValutaDate": dayWant("20151130"), "BookingDate": nil,
						"BookingText": nil, "BankID": nil, "AccountID": nil, "Name": nil, "Purpose": nil, "Purpose2": nil, "TransactionID": nil,
						"AccountBalanceBefore.Amount.Currency": cur, "AccountBalanceAfter.Amount.Currency": fld("closecur"+id, 3, "u"),
						"AccountBalanceBefore.TransmissionDate": dayWant("2015112" + id), "AccountBalanceAfter.TransmissionDate": dayWant("2015122" + id),
					}
					if b.booked != "" {
						w["BookingDate"] = dayWant("2015" + b.booked)
					}
					if b.purpose {
						w["BookingText"], w["BankID"], w["AccountID"], w["Name"] = fld("kind"+n, 8, "t"), fld("bic"+n, 9, "t"), fld("iban"+n, 20, "t"), fld("name"+n, 19, "t")
						w["Purpose"] = catOf(tString, fld("p20"+n, 27, "t"), cStr(" "), fld("p21"+n, 26, "t"))
						w["Purpose2"] = catOf(tString, fld("p60"+n, 23, "t"), cStr(" "), fld("p61"+n, 22, "t"))
						w["TransactionID"] = numWant(fld("gvc"+n, 3, "d"))
					}
					c.expectFields("transactions", lab, where, in, q.St, trs[k], w)
					c.expectFields("signs", fmt.Sprintf("%s (%s)", lab, b.mark), where, in, q.St, trs[k], want{
						"Amount.Amount":                      signedAmount("amount"+n, b.mark == "D" || b.mark == "RC"),
						"AccountBalanceBefore.Amount.Amount": signedAmount("open"+id, i == 0),
						"AccountBalanceAfter.Amount.Amount":  signedAmount("close"+id, i == 1),
					})
					k++
				}
				c.Check("messages", "order of statement "+id, okOrder, where, "")
			}
		})
	}
}
