package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P16"] = checkP16 }

// bigHook gives the effect of math/big integers on terms.
func bigHook(k *Call) ([]Outcome, bool) {
	st := k.St
	const pre = "(*math/big.Int)."
	cont := func(v Val) Val {
		p, ok := st.resolve(v).(*Ptr)
		if !ok {
			return nil
		}
		c := st.get(p.Obj)
		if t, ok := c.(*Term); ok && t.Op != "zero" {
			return t
		}
		if c, ok := c.(*Const); ok {
			return c
		}
		return cInt(0)
	}
	switch k.Name {
	case "math/big.NewInt":
		rt := k.Sig.Results().At(0).Type()
		_ = rt
		return []Outcome{{Res: &Ptr{Obj: st.alloc(mkBig("", st.resolve(k.Args[0])))}}}, true
	case pre + "SetString":
		p, ok := st.resolve(k.Args[0]).(*Ptr)
		if !ok {
			return nil, false
		}
		s := st.resolve(k.Args[1])
		good := mk("parses", tBool, s)
		return []Outcome{
			{Res: tuple(p, cBool(true)), Do: func(x *State) bool {
				x.set(p.Obj, mkBig("parse", s, st.resolve(k.Args[2])))
				return x.assume(good, true)
			}},
			{Res: tuple(&Nil{k.Sig.Results().At(0).Type()}, cBool(false)), Do: func(x *State) bool { return x.assume(good, false) }},
		}, true
	case pre + "Mod", pre + "Rem", pre + "Sub", pre + "Add", pre + "Mul":
		p, ok := st.resolve(k.Args[0]).(*Ptr)
		a, b := cont(k.Args[1]), cont(k.Args[2])
		if !ok || a == nil || b == nil {
			return nil, false
		}
		st.set(p.Obj, mkBig(map[string]string{"Mod": "mod", "Rem": "mod", "Sub": "-", "Add": "+", "Mul": "*"}[k.Name[len(pre):]], a, b))
		return []Outcome{{Res: p}}, true
	case pre + "Set", pre + "SetInt64":
		p, ok := st.resolve(k.Args[0]).(*Ptr)
		if !ok {
			return nil, false
		}
		v := st.resolve(k.Args[1])
		if k.Name == pre+"Set" {
			v = cont(v)
		}
		st.set(p.Obj, mkBig("", v))
		return []Outcome{{Res: p}}, true
	case pre + "Int64", pre + "Uint64":
		if a := cont(k.Args[0]); a != nil {
			return []Outcome{{Res: mkBig("", a)}}, true
		}
	case pre + "Cmp":
		a, b := cont(k.Args[0]), cont(k.Args[1])
		if a != nil && b != nil {
			return []Outcome{{Res: mk("cmp", tInt, a, b)}}, true
		}
	case pre + "String":
		if a := cont(k.Args[0]); a != nil {
			return []Outcome{{Res: mk("decimal", tString, a)}}, true
		}
	}
	return nil, false
}

func mkBig(op string, a ...Val) Val {
	if op == "" {
		return a[0]
	}
	return mk(op, tInt, a...)
}

// ibanLengths are the lengths of the IBAN registry.
var ibanLengths = map[string]int{"AL": 28, "AD": 24, "AZ": 28, "BH": 22, "BE": 16, "BA": 20, "BR": 29, "VG": 24, "BG": 22, "CR": 22, "DK": 18, "DE": 22, "DO": 28, "SV": 28, "EE": 20, "FO": 18, "FI": 18, "FR": 27, "GE": 22, "GI": 23, "GR": 27, "GL": 18, "GB": 22, "GT": 28, "IQ": 23, "IE": 22, "IS": 26, "IL": 23, "IT": 27, "JO": 30, "KZ": 20, "QA": 29, "XK": 20, "HR": 21, "KW": 30, "LV": 21, "LB": 28, "LI": 21, "LT": 20, "LU": 20, "MT": 31, "MR": 27, "MU": 30, "MK": 19, "MD": 24, "MC": 27, "ME": 22, "NL": 18, "NO": 15, "AT": 20, "PK": 24, "PS": 29, "PL": 28, "PT": 25, "RO": 24, "LC": 32, "SM": 27, "ST": 25, "SA": 24, "SE": 24, "CH": 21, "RS": 22, "SC": 31, "SK": 24, "SI": 19, "ES": 24, "CZ": 24, "TN": 24, "TR": 26, "UA": 29, "HU": 28, "CY": 28, "BY": 28, "AE": 23, "TL": 23}

// digitsOf is the normal form of a text whose letters were replaced by their
// numbers: a list of "T(x)" and constant digits. ok is false for a wrong
// replacement; known is false if the form is not recognised.
func digitsOf(v Val, table bool) (l []string, ok, known bool) {
	ok, known = true, true
	for _, x := range appendCat(nil, v) {
		x = stripConv(x)
		if s, isS := asStr(x); isS {
			if table {
				s = lettersToDigits(s)
			}
			if n := len(l); n > 0 && isDigits(l[n-1]) {
				l[n-1] += s
			} else if s != "" {
				l = append(l, s)
			}
			continue
		}
		t, isT := x.(*Term)
		if !isT {
			return nil, true, false
		}
		switch {
		case strings.HasSuffix(t.Op, "strings.Replacer).Replace") && len(t.A) == 2:
			good, k := letterTable(t.A[0])
			if !k {
				return nil, true, false
			}
			if !good {
				return nil, false, true
			}
			a, o, k := digitsOf(t.A[1], true)
			if !k || !o {
				return nil, o, k
			}
			for _, e := range a {
				if n := len(l); n > 0 && isDigits(l[n-1]) && isDigits(e) {
					l[n-1] += e
				} else {
					l = append(l, e)
				}
			}
		default:
			if strings.HasPrefix(t.Op, "call:") && !strings.HasSuffix(t.Op, "strings.ToUpper") {
				return nil, true, false
			}
			k := t.Key()
			if table {
				k = "T(" + k + ")"
			}
			l = append(l, k)
		}
	}
	return
}

func isDigits(s string) bool { return s != "" && strings.Trim(s, "0123456789") == "" }

func lettersToDigits(s string) string {
	o := ""
	for i := 0; i < len(s); i++ {
		if s[i] >= 'A' && s[i] <= 'Z' {
			o += fmt.Sprint(int(s[i]-'A') + 10)
		} else {
			o += s[i : i+1]
		}
	}
	return o
}

// letterTable checks the table of a letter replacement.
func letterTable(v Val) (ok, known bool) {
	t, isT := v.(*Term)
	if !isT || !strings.HasSuffix(t.Op, "strings.NewReplacer") || len(t.A) != 1 {
		return false, false
	}
	sq, isS := t.A[0].(*Seq)
	if !isS || len(sq.P)%2 != 0 {
		return false, false
	}
	m := map[string]string{}
	for i := 0; i < len(sq.P); i += 2 {
		a, ok1 := asStr(sq.P[i].V)
		b, ok2 := asStr(sq.P[i+1].V)
		if !ok1 || !ok2 || sq.P[i].Spread || sq.P[i+1].Spread {
			return false, false
		}
		m[a] = b
	}
	for ch := 'A'; ch <= 'Z'; ch++ {
		if m[string(ch)] != fmt.Sprint(int(ch-'A')+10) {
			return false, true
		}
		delete(m, string(ch))
	}
	for ch := 'a'; ch <= 'z'; ch++ {
		if x, in := m[string(ch)]; in && x != fmt.Sprint(int(ch-'a')+10) {
			return false, true
		}
		delete(m, string(ch))
	}
	return len(m) == 0, true
}

// remainder97 finds the number whose remainder modulo 97 v is.
func remainder97(v Val) (num Val, ok, known bool) {
	if i, isI := v.(*Iface); isI {
		v = i.V
	}
	v = stripConv(v)
	t, isT := v.(*Term)
	if !isT || len(t.A) != 2 {
		return nil, true, false
	}
	if t.Op != "mod" && t.Op != "%" {
		return nil, true, false
	}
	p, isP := stripConv(t.A[0]).(*Term)
	if !isP || p.Op != "parse" {
		return nil, true, false
	}
	m, okm := asInt(stripConv(t.A[1]))
	b, okb := asInt(stripConv(p.A[1]))
	return p.A[0], okm && m == 97 && okb && b == 10, true
}

// checkNumber finds the remainder that the check number v is computed from
// and evaluates v for every remainder the path condition admits. lead is the
// literal text in front of the number.
func checkNumber(st *State, v Val, format, lead string) (num Val, ok, known bool) {
	var rem *Term
	walk(v, func(y Val) bool {
		if t, isT := y.(*Term); isT && rem == nil {
			if _, _, k := remainder97(t); k {
				rem = t
			}
		}
		return true
	})
	if rem == nil {
		return nil, true, false
	}
	num, is97, _ := remainder97(rem)
	if !is97 {
		return num, false, true
	}
	ok = true
	for r := int64(0); r < 97; r++ {
		admitted, unread := true, false
		st.conds(func(t *Term, b bool) {
			if t.Op != "parses" && len(t.A) == 2 && (mentionsTerm(t.A[0], rem) || mentionsTerm(t.A[1], rem)) {
				x, k1 := arith(t.A[0], rem, r)
				y, k2 := arith(t.A[1], rem, r)
				if !k1 || !k2 {
					unread = true
					return
				}
				var holds bool
				switch t.Op {
				case "==":
					holds = x == y
				case "<":
					holds = x < y
				case "<=":
					holds = x <= y
				default:
					unread = true
					return
				}
				if holds != b {
					admitted = false
				}
			}
		})
		if unread {
			return num, true, false
		}
		if !admitted {
			continue
		}
		n, k := arith(v, rem, r)
		if !k {
			return num, true, false
		}
		if lead+fmt.Sprintf(format, n) != fmt.Sprintf("%02d", 98-r) {
			ok = false
		}
	}
	return num, ok, true
}

func mentionsTerm(v Val, t *Term) bool {
	found := false
	walk(v, func(y Val) bool {
		found = found || y.Key() == t.Key()
		return !found
	})
	return found
}

// arith evaluates the arithmetic of v with the value r for the term rem.
func arith(v Val, rem *Term, r int64) (int64, bool) {
	if i, isI := v.(*Iface); isI {
		v = i.V
	}
	v = stripConv(v)
	if v.Key() == rem.Key() {
		return r, true
	}
	if n, isC := asInt(v); isC {
		return int64(n), true
	}
	t, isT := v.(*Term)
	if !isT || len(t.A) != 2 {
		return 0, false
	}
	a, ok1 := arith(t.A[0], rem, r)
	b, ok2 := arith(t.A[1], rem, r)
	if !ok1 || !ok2 {
		return 0, false
	}
	switch t.Op {
	case "+":
		return a + b, true
	case "-":
		return a - b, true
	case "*":
		return a * b, true
	case "%", "mod":
		if b == 0 {
			return 0, false
		}
		if a %= b; a < 0 && t.Op == "mod" {
			a += b
		}
		return a, true
	}
	return 0, false
}

// alphabetCheck reports whether the path condition bounds the characters of
// x to IBAN characters. seen tells whether any condition looks at the
// characters of x in another way.
func alphabetCheck(st *State, x Val) (ok, seen bool) {
	st.conds(func(t *Term, b bool) {
		if t.Op == "parses" || !strings.Contains(t.Key(), x.Key()) {
			return
		}
		if t.Op == "==" && b {
			a, e := t.A[0], t.A[1]
			if _, isC := asStr(a); isC {
				a, e = e, a
			}
			if call, isT := a.(*Term); isT && (call.Op == "call:strings.Trim" || call.Op == "call:strings.TrimLeft" || call.Op == "call:strings.TrimRight") && len(call.A) == 2 {
				set, isS := asStr(call.A[1])
				if s, isE := asStr(e); isE && isS && s == "" {
					for _, y := range appendCat(nil, call.A[0]) {
						if stripConv(y).Key() == x.Key() {
							seen = true
							good := true
							for i := 0; i < len(set); i++ {
								ch := set[i]
								good = good && (ch >= '0' && ch <= '9' || ch >= 'A' && ch <= 'Z' || ch >= 'a' && ch <= 'z')
							}
							ok = ok || good
						}
					}
					return
				}
			}
		}
		if t.Op == "==" || t.Op == "<" || t.Op == "<=" {
			plain := true // lengths and whole texts only
			for _, y := range t.A {
				if mentionsOp(y, "call:") && !mentionsOp(y, "call:strings.ToUpper") || mentionsOp(y, "[]") || mentionsOp(y, "index") {
					plain = false
				}
			}
			if plain {
				return
			}
		}
		seen = true
	})
	return
}

func textKey(l []Val) string {
	var s []string
	for _, v := range l {
		s = append(s, v.Key())
	}
	return strings.Join(s, " ")
}

func mentionsTrim(st *State) bool {
	f := false
	st.conds(func(t *Term, b bool) { f = f || mentionsOp(t, "call:strings.Trim") })
	return f
}

func mentionsParse(st *State, l []Val) bool {
	f := false
	for _, v := range l {
		f = f || mentionsOp(v, "parse")
	}
	st.conds(func(t *Term, b bool) { f = f || t.Op != "parses" && mentionsOp(t, "parse") })
	return f
}

func checkP16(c *Ctx) {
	c.Rule("check number", "the check number of a produced IBAN is 98 - (letters-as-digits of BBAN, country, 00) mod 97, in two digits, between the country code and the BBAN", 60)
	c.Rule("length", "an IBAN is produced only with the length its country prescribes, for an unknown country with at most 34 characters", 60)
	c.Rule("characters", "an IBAN is produced or reported valid only from letters and digits", 61)
	c.Rule("valid", "an IBAN is reported valid only if its number, rearranged, modulo 97 is 1", 1)
	c.Rule("accepted", "a text is accepted as IBAN only if its check digits equal the computed ones", 1)
	c.Rule("case", "lower and upper case letters are handled alike", 60)
	c.Rule("german", "a German IBAN is made of the bank id and the account number, padded with zeros to ten digits", 1)
	c.Rule("crash", "no text makes any operation on IBANs fail at run time", 8)
	p := c.P
	upper := func(v Val) string { return "call:strings.ToUpper(" + v.Key() + ")" }
	undecided := func(rule, name, why string) { c.Undecided(rule, name, why) }

	// New
	fn := p.Func("iban", "New")
	where := p.Pos(fn.Pos())
	in := NewInterp(p)
	in.Hook = bigHook
	in.ConvFork = false
	st := p.NewState()
	args := symArgs(st, fn)
	cc, bban := args[0], args[1]
	good := 0
	seenCountry := map[string]bool{}
	for _, q := range in.Run(st, fn, args...) {
		if q.Kind != "return" || !q.success() {
			continue
		}
		good++
		country := ""
		if f := q.St.fact(upper(cc)); f.C != nil {
			country, _ = asStr(f.C)
		} else if f := q.St.fact(cc.Key()); f.C != nil {
			country, _ = asStr(f.C)
		}
		name := "country " + country
		if country == "" {
			name = "unknown country"
			known := append(append([]string(nil), q.St.fact(upper(cc)).NE...), q.St.fact(cc.Key()).NE...)
			for _, k := range known {
				seenCountry[strings.Trim(k, "\"")] = true
			}
		} else {
			seenCountry[country] = true
		}
		res := in.deep(q.St, q.Res[0])
		ps := appendCat(nil, stripConv(res))
		var text []Val // the parts of the result
		for _, x := range ps {
			text = append(text, stripConv(x))
		}
		fi := -1
		for i, x := range text {
			if t, ok := x.(*Term); ok && (strings.HasPrefix(t.Op, "fmt:") || t.Op == "itoa") && mentionsOp(t, "parse") {
				fi = i
			}
		}
		if fi < 0 {
			if !mentionsOp(res, "mod") && !mentionsOp(res, "%") {
				c.Check("check number", name, false, where, "the produced IBAN holds no check number: "+cut(res.Key()))
			} else {
				undecided("check number", name, "the check number is not computed in a recognised way")
				undecided("case", name, "the check number is not computed in a recognised way")
			}
		} else {
			ft := text[fi].(*Term)
			format, lead := "%d", ""
			if f := strings.TrimPrefix(ft.Op, "fmt:"); f != ft.Op {
				format = f
			}
			if fi > 0 {
				if b, isC := asStr(text[fi-1]); isC && strings.HasSuffix(b, "0") {
					lead = "0"
					text[fi-1] = cStr(strings.TrimSuffix(b, "0"))
					if b == "0" {
						text = append(append([]Val{}, text[:fi-1]...), text[fi:]...)
						fi--
					}
				}
			}
			num, ok, known := checkNumber(q.St, ft.A[0], format, lead)
			var l []string
			if known && ok {
				l, ok, known = digitsOf(num, false)
			}
			switch {
			case !known:
				undecided("check number", name, "the number is not computed in a recognised way")
				undecided("case", name, "the number is not computed in a recognised way")
			default:
				want := []string{"T(" + upper(bban) + ")"}
				if country != "" {
					want = append(want, lettersToDigits(country)+"00")
				} else {
					want = append(want, "T("+upper(cc)+")", "00")
				}
				same := strings.Join(l, " ") == strings.Join(want, " ")
				if !same && strings.Join(l, " ") == strings.ReplaceAll(strings.Join(want, " "), "call:strings.ToUpper("+bban.Key()+")", bban.Key()) {
					c.Check("case", name, false, where, "the check number is computed without regard to lower case letters")
					same = true
				} else {
					c.Check("case", name, true, where, "")
				}
				c.Check("check number", name, ok && same, where, fmt.Sprintf("the check number is %s", cut(ft.Key())))
			}
			before, after := text[:fi], text[fi+1:]
			wantB := fmt.Sprintf("%q", country)
			if country == "" {
				wantB = upper(cc)
			}
			kb, ka := textKey(before), textKey(after)
			c.Check("check number", name+", layout", kb == wantB && ka == upper(bban), where, fmt.Sprintf("the IBAN consists of %s, check number, %s", kb, ka))
		}
		lo, hi := q.St.interval(mk("len", tInt, bban))
		if l2, h2 := q.St.interval(mk("len", tInt, mk("call:strings.ToUpper", tString, bban))); h2 < hi {
			lo, hi = l2, h2
		}
		if country == "" {
			c.Check("length", name, lo >= 1 && hi <= 30, where, fmt.Sprintf("the BBAN may have between %d and %d characters", lo, hi))
		} else if n, ok := ibanLengths[country]; ok {
			c.Check("length", name, lo == int64(n-4) && hi == int64(n-4), where, fmt.Sprintf("the BBAN may have between %d and %d characters, %d are prescribed", lo, hi, n-4))
		} else {
			c.note("no length known for country %s", country)
		}
		for _, x := range []struct {
			n string
			v Val
		}{{"BBAN", bban}, {"country", cc}} {
			ok, seen := alphabetCheck(q.St, x.v)
			if !ok && seen && !mentionsTrim(q.St) {
				undecided("characters", name+", "+x.n, "the characters are checked in an unrecognised way")
				continue
			}
			if !ok && !seen && x.n == "country" && country != "" {
				continue
			}
			c.Check("characters", name+", "+x.n, ok, where, "the characters of the "+x.n+" are not restricted to letters and digits")
		}
	}
	c.use(in)
	c.Check("check number", "an IBAN can be made", good > 0, where, "no successful execution")
	for k, n := range ibanLengths {
		if len(seenCountry) > 1 && !seenCountry[k] && regionKnown[k] {
			c.Check("length", "country "+k, false, where, fmt.Sprintf("the length %d of country %s is not enforced", n, k))
		}
	}

	// Valid
	vf := p.MethodOpt(p.TypeNamed("iban", "IBAN"), "Valid")
	where = p.Pos(vf.Pos())
	in = NewInterp(p)
	in.Hook = bigHook
	in.ConvFork = false
	st = p.NewState()
	iv := sym("iban", p.TypeNamed("iban", "IBAN"))
	can := false
	for _, q := range in.Run(st, vf, iv) {
		if q.Kind != "return" {
			continue
		}
		r := q.St.resolve(q.Res[0])
		b, isB := asBool(r)
		if isB && !b {
			continue
		}
		can = true
		var conds []Val
		if !isB {
			conds = append(conds, r)
		}
		decided, fine := false, false
		test := func(k Val) {
			t, ok := k.(*Term)
			if !ok || len(t.A) != 2 {
				return
			}
			if t.Op == "<" || t.Op == "<=" {
				for _, a := range t.A {
					if ct, ok := a.(*Term); ok && (ct.Op == "cmp" || ct.Op == "mod") {
						decided = true
					}
				}
				return
			}
			if t.Op != "==" {
				return
			}
			a, b := t.A[0], t.A[1]
			if _, ok := a.(*Const); ok {
				a, b = b, a
			}
			if ct, ok := a.(*Term); ok && ct.Op == "cmp" {
				if z, ok := asInt(b); !ok || z != 0 {
					decided = true
					return
				}
				a, b = ct.A[0], ct.A[1]
				if _, ok := a.(*Const); ok {
					a, b = b, a
				}
			}
			num, ok, known := remainder97(a)
			if !known {
				return
			}
			one, isI := asInt(stripConv(b))
			l, ok2, k2 := digitsOf(num, false)
			if !k2 {
				return
			}
			decided = true
			n := iv.Key()
			got := strings.Join(l, " ")
			want := "T(call:strings.ToUpper(slice(" + n + ",4,len(" + n + ")))) T(call:strings.ToUpper(slice(" + n + ",0,2))) slice(" + n + ",2,4)"
			if ok && ok2 && isI && one == 1 && got == want {
				fine = true
			}
		}
		for _, k := range conds {
			test(k)
		}
		q.St.conds(func(t *Term, b bool) {
			if b {
				test(t)
			}
		})
		if !decided && mentionsParse(q.St, conds) {
			undecided("valid", "Valid", "the remainder is not computed in a recognised way")
		} else {
			c.Check("valid", "Valid", decided && fine, where, "an IBAN may be reported valid without its rearranged number being 1 modulo 97")
		}
		ok, seen := alphabetCheck(q.St, mk("slice", tString, iv, cInt(4), mk("len", tInt, iv)))
		ok2, seen2 := alphabetCheck(q.St, iv)
		if !ok && !ok2 && (seen || seen2) && !mentionsTrim(q.St) {
			undecided("characters", "Valid", "the characters are checked in an unrecognised way")
		} else {
			c.Check("characters", "Valid", ok || ok2, where, "characters other than letters and digits may be reported valid")
		}
	}
	c.use(in)
	c.Check("valid", "an IBAN can be valid", can, where, "no IBAN is ever reported valid")

	// From, IsValid and NewGerman rest on New and Valid
	newHook := func(k *Call) ([]Outcome, bool) {
		if k.Callee == fn {
			r := mk("new", k.Sig.Results().At(0).Type(), k.St.resolve(k.Args[0]), k.St.resolve(k.Args[1]))
			e := k.St.fresh("fault:new", tError)
			return []Outcome{
				{Res: tuple(r, &Nil{tError}), Do: func(s *State) bool {
					s.emit("new", k.Instr.Pos(), r)
					s.setIv(mk("len", tInt, r), 5, 34)
					return true
				}},
				{Res: tuple(cStr(""), e), Do: func(s *State) bool { nonNilTerm(s, e); return true }},
			}, true
		}
		if k.Callee == vf {
			return []Outcome{{Res: mk("valid", tBool, k.St.resolve(k.Args[0]))}}, true
		}
		return bigHook(k)
	}
	ff := p.Func("iban", "From")
	where = p.Pos(ff.Pos())
	in = NewInterp(p)
	in.Hook = newHook
	in.ConvFork = false
	st = p.NewState()
	text := sym("text", tString)
	can = false
	for _, q := range in.Run(st, ff, text) {
		if q.Kind != "return" || !q.success() {
			continue
		}
		can = true
		r := stripConv(q.St.resolve(q.Res[0]))
		t, ok := r.(*Term)
		if !ok || t.Op != "new" {
			undecided("accepted", "From", "the result does not come from New")
			continue
		}
		want := "new(slice(text,0,2),slice(text,4,len(text)))"
		okFact := false
		for k, f := range q.St.facts {
			if f.C == nil || f.C.Key() != "true" {
				continue
			}
			if strings.HasPrefix(k, "==(") && strings.Contains(k, "slice(text,2,4)") && strings.Contains(k, "slice("+t.Key()+",2,4)") {
				okFact = true
			}
			if strings.HasPrefix(k, "==(") && (strings.Contains(k, "("+t.Key()+",call:strings.ToUpper(text))") || strings.Contains(k, "(call:strings.ToUpper(text),"+t.Key()+")")) {
				okFact = true
			}
			if k == "valid(text)" {
				okFact = true
			}
		}
		c.Check("accepted", "From", t.Key() == want && okFact, where, fmt.Sprintf("the accepted IBAN is %s, its check digits compared with the given ones: %v", cut(t.Key()), okFact))
	}
	c.use(in)
	c.Check("accepted", "a text can be accepted", can, where, "no text is ever accepted")

	iv2 := p.Func("iban", "IsValid")
	in = NewInterp(p)
	in.ConvFork = false
	in.Hook = func(k *Call) ([]Outcome, bool) {
		if k.Callee == ff {
			r := mk("from", k.Sig.Results().At(0).Type(), k.St.resolve(k.Args[0]))
			e := k.St.fresh("fault:from", tError)
			return []Outcome{
				{Res: tuple(r, &Nil{tError}), Do: func(s *State) bool { s.emit("from", k.Instr.Pos(), r); return true }},
				{Res: tuple(cStr(""), e), Do: func(s *State) bool { nonNilTerm(s, e); return true }},
			}, true
		}
		return newHook(k)
	}
	st = p.NewState()
	for _, q := range in.Run(st, iv2, text) {
		if q.Kind != "return" {
			continue
		}
		r := q.St.resolve(q.Res[0])
		if b, ok := asBool(r); ok && !b {
			continue
		}
		took := false
		for _, e := range q.St.Events() {
			took = took || e.Kind == "from" && strings.Contains(e.Args[0].Key(), "text")
		}
		c.Check("accepted", "IsValid", took, p.Pos(iv2.Pos()), "a text is reported valid that From rejects")
	}
	c.use(in)

	gf := p.Func("iban", "NewGerman")
	in = NewInterp(p)
	in.Hook = newHook
	in.ConvFork = false
	st = p.NewState()
	bank, acc := sym("bank", tString), sym("account", tString)
	for _, q := range in.Run(st, gf, bank, acc) {
		if q.Kind != "return" || !q.success() {
			continue
		}
		t, ok := stripConv(q.St.resolve(q.Res[0])).(*Term)
		if !ok || t.Op != "new" {
			undecided("german", "NewGerman", "the result does not come from New")
			continue
		}
		k0, _ := asStr(t.A[0])
		parts := appendCat(nil, t.A[1])
		n := len(parts)
		good := k0 == "DE" && n >= 2 && parts[0].Key() == bank.Key()
		last := ""
		if n > 0 {
			last = parts[n-1].Key()
			for _, x := range parts[1 : n-1] {
				pad := false
				if s, ok := asStr(x); ok && strings.Trim(s, "0") == "" {
					pad = true
				}
				if x, ok := x.(*Term); ok && strings.HasSuffix(x.Op, "strings.Repeat") && x.A[0].Key() == "\"0\"" {
					pad = true
				}
				good = good && pad
			}
		}
		lo, hi := q.St.interval(mk("len", tInt, acc))
		switch {
		case strings.HasPrefix(last, "fmt:"):
			good = good && strings.HasPrefix(last, "fmt:%010s(") && strings.Contains(last, acc.Key())
		case n == 2:
			good = good && last == acc.Key() && lo >= 10
		default:
			good = good && last == acc.Key()
		}
		c.Check("german", "NewGerman", good, p.Pos(gf.Pos()), fmt.Sprintf("for account numbers of %d to %d characters the IBAN is made from country %q and BBAN %s", lo, hi, k0, cut(t.A[1].Key())))
	}
	c.use(in)

	// no operation fails at run time
	ops := []*ssa.Function{fn, vf, ff, iv2, gf, p.Func("iban", "Print")}
	for _, m := range []string{"BBAN", "BankID", "AccountID", "CountryCode", "ProofNumber", "String"} {
		if f := p.MethodOpt(p.TypeNamed("iban", "IBAN"), m); f != nil {
			ops = append(ops, f)
		}
	}
	for _, f := range ops {
		var bad []string
		in := NewInterp(p)
		in.Hook = bigHook
		in.ConvFork = false
		in.CheckNil = true
		in.OnSite = func(s *State, x Site) { bad = append(bad, fmt.Sprintf("%s at %s", x.Desc, p.Pos(x.Instr.Pos()))) }
		st := p.NewState()
		for _, q := range in.Run(st, f, symArgs(st, f)...) {
			if q.Kind == "panic" || q.Kind == "exit" {
				bad = append(bad, q.Kind+" at "+q.Where)
			}
		}
		c.use(in)
		c.Check("crash", f.Name(), len(bad) == 0, p.Pos(f.Pos()), "may fail at run time: "+cut(strings.Join(bad, ", ")))
	}
}

// regionKnown are the countries whose length the library knows.
var regionKnown = map[string]bool{"AD": true, "AE": true, "AL": true, "AT": true, "AZ": true, "BA": true, "BE": true, "BG": true, "BH": true, "BR": true, "BY": true, "CH": true, "CR": true, "CY": true, "CZ": true, "DE": true, "DK": true, "DO": true, "EE": true, "ES": true, "FI": true, "FO": true, "FR": true, "GB": true, "GE": true, "GI": true, "GL": true, "GR": true, "GT": true, "HR": true, "HU": true, "IE": true, "IL": true, "IQ": true, "IS": true, "IT": true, "JO": true, "KW": true, "KZ": true, "LB": true, "LC": true, "LI": true, "LT": true, "LU": true, "LV": true, "MC": true, "MD": true, "ME": true, "MK": true, "MR": true, "MT": true, "MU": true, "NL": true, "NO": true, "PK": true, "PL": true, "PS": true, "PT": true, "QA": true, "RO": true, "RS": true, "SA": true, "SC": true, "SE": true, "SI": true, "SK": true, "SM": true, "ST": true, "SV": true, "TL": true, "TN": true, "TR": true, "UA": true, "VG": true, "XK": true}
