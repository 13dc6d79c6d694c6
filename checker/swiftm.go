package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"
	"time"
	"unicode"
)

// Fields are texts of a known length over a known set of characters:
// fld:NAME:OFFSET:LENGTH:CLASS. Cutting a field gives fields again.

var fldClass = map[string]string{
	"d": "0123456789",
	"u": "ABCDEFGHIJKLMNOPQRSTUVWXYZ",
	"t": "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789 .\xe4\xdf",
}

type fldInfo struct {
	name     string
	off, len int
	class    string
}

func fldTerm(f fldInfo) *Term {
	return mk(fmt.Sprintf("fld:%s:%d:%d:%s", f.name, f.off, f.len, f.class), tString)
}

func fld(name string, n int, class string) *Term { return fldTerm(fldInfo{name, 0, n, class}) }

func isFld(t *Term) bool { return strings.HasPrefix(t.Op, "fld:") }

func fldOf(t *Term) (f fldInfo) {
	p := strings.Split(t.Op, ":")
	if len(p) != 5 {
		return
	}
	f.name, f.class = p[1], p[4]
	f.off, _ = strconv.Atoi(p[2])
	f.len, _ = strconv.Atoi(p[3])
	return
}

// fldLen is the length of a field; converted text is one byte longer, so that
// positions in the one do not fit the other.
func fldLen(t *Term) int {
	if isFld(t) {
		return fldOf(t).len
	}
	if strings.HasPrefix(t.Op, "dec:") && len(t.A) == 1 {
		if x, ok := t.A[0].(*Term); ok && isFld(x) {
			return fldOf(x).len + 1
		}
	}
	return 0
}

// splitPart cuts a constant, a field or the rendering of a number with a known
// number of digits behind n bytes.
func splitPart(st *State, v Val, n int) (a, b Val, ok bool) {
	if s, isS := asStr(v); isS {
		if n < len(s) {
			return cStr(s[:n]), cStr(s[n:]), true
		}
		return
	}
	t, isT := v.(*Term)
	if !isT {
		return
	}
	if isFld(t) {
		f := fldOf(t)
		if n >= f.len {
			return
		}
		x, y := f, f
		x.len = n
		y.off, y.len = f.off+n, f.len-n
		return fldTerm(x), fldTerm(y), true
	}
	if t.Op == "itoa" {
		lo, hi := st.interval(t.A[0])
		if lo < 1 || hi > 1<<40 {
			return
		}
		l, h := strconv.FormatInt(lo, 10), strconv.FormatInt(hi, 10)
		if len(l) == len(h) && n < len(l) && l[:n] == h[:n] {
			return cStr(l[:n]), mk(fmt.Sprintf("low:%d", len(l)-n), tString, t.A[0]), true
		}
	}
	return
}

// joined puts fields together again that were cut.
func joined(v Val) Val {
	var out []Val
	for _, p := range textParts(v) {
		t, ok := p.(*Term)
		if ok && isFld(t) && len(out) > 0 {
			if u, ok := out[len(out)-1].(*Term); ok && isFld(u) {
				a, b := fldOf(u), fldOf(t)
				if a.name == b.name && a.off+a.len == b.off {
					a.len += b.len
					out[len(out)-1] = fldTerm(a)
					continue
				}
			}
		}
		out = append(out, p)
	}
	return catOf(tString, out...)
}

// shown renders a text with its fields by name.
func shown(v Val) string {
	var sb strings.Builder
	for _, p := range textParts(joined(v)) {
		if s, ok := asStr(p); ok {
			sb.WriteString(strconv.Quote(s))
			continue
		}
		if t, ok := p.(*Term); ok && isFld(t) {
			f := fldOf(t)
			if f.off == 0 {
				fmt.Fprintf(&sb, "<%s>", f.name)
			} else {
				fmt.Fprintf(&sb, "<%s from %d>", f.name, f.off)
			}
			continue
		}
		sb.WriteString(keyOf(p))
	}
	return sb.String()
}

// validDates restricts a hook to texts that are valid dates.
func validDates(h func(*Call) ([]Outcome, bool)) func(*Call) ([]Outcome, bool) {
	return func(k *Call) ([]Outcome, bool) {
		o, ok := h(k)
		if ok && len(o) == 2 && (k.Name == "time.Parse" || k.Name == "time.ParseInLocation") {
			o = o[:1]
		}
		return o, ok
	}
}

// constDay is the day a constant text denotes.
func constDay(v Val) (time.Time, bool) {
	t, ok := v.(*Term)
	if !ok {
		return time.Time{}, false
	}
	if strings.HasPrefix(t.Op, "shift:") {
		d, ok := constDay(t.A[0])
		p := strings.Split(t.Op, ":")
		if !ok || len(p) != 4 {
			return d, false
		}
		a, e1 := strconv.Atoi(p[1])
		b, e2 := strconv.Atoi(p[2])
		c, e3 := strconv.Atoi(p[3])
		return d.AddDate(a, b, c), e1 == nil && e2 == nil && e3 == nil
	}
	if !strings.HasPrefix(t.Op, "day:") {
		return time.Time{}, false
	}
	s, ok := asStr(t.A[0])
	if !ok {
		return time.Time{}, false
	}
	d, err := time.Parse(t.Op[4:], s)
	return d, err == nil
}

// swiftHook adds to textHook what is needed to read texts made of fields.
func swiftHook(k *Call) ([]Outcome, bool) {
	in, st := k.In, k.St
	arg := func(i int) Val { return st.resolve(k.Args[i]) }
	text := func(i int) Val { return stripConv(in.bytesTerm(st, k.Args[i])) }
	one := func(v Val) ([]Outcome, bool) { return []Outcome{{Res: v}}, true }
	res0 := func() types.Type { return k.Sig.Results().At(0).Type() }
	fields := func(v Val) bool {
		for _, p := range textParts(v) {
			if t, ok := p.(*Term); ok && fldLen(t) == 0 && !strings.HasPrefix(t.Op, "low:") && t.Op != "itoa" {
				return false
			}
		}
		return true
	}
	switch k.Name {
	case "strings.HasPrefix", "bytes.HasPrefix":
		want, ok := asStr(text(1))
		ps := textParts(text(0))
		if ok && want != "" && len(ps) > 0 {
			if s, isS := asStr(ps[0]); isS {
				if len(s) >= len(want) {
					return one(cBool(strings.HasPrefix(s, want)))
				}
				if !strings.HasPrefix(want, s) {
					return one(cBool(false))
				}
			}
			if t, isT := ps[0].(*Term); isT && fldLen(t) > 0 && !strings.Contains(atomChars(t), want[:1]) {
				return one(cBool(false))
			}
		}
	case "strings.HasSuffix", "bytes.HasSuffix":
		ps := textParts(text(0))
		if fields(text(0)) && len(ps) > 0 {
			return one(mk("ends", tBool, joined(text(0)), text(1)))
		}
	case "strings.Split", "bytes.Split", "strings.SplitN", "bytes.SplitN":
		sep, ok := asStr(text(1))
		n := -1
		if len(k.Args) == 3 {
			if n, ok = asInt(arg(2)); !ok {
				return nil, false
			}
		}
		if !ok || sep == "" {
			return nil, false
		}
		et := under(res0()).(*types.Slice).Elem()
		var out []Part
		rest := textParts(text(0))
		for n < 0 || len(out) < n-1 {
			b, a, found, known := findText(rest, sep)
			if !known {
				return nil, false
			}
			if !found {
				break
			}
			out = append(out, Part{V: catOf(et, b...)})
			rest = a
		}
		out = append(out, Part{V: catOf(et, rest...)})
		return one(in.newSlice(st, res0(), out))
	case "strings.TrimSpace", "bytes.TrimSpace", "strings.TrimRight", "strings.TrimLeft", "strings.Trim":
		if ps := textParts(text(0)); len(ps) > 0 && fields(text(0)) {
			return one(trimmed(k.Name, res0(), k.Args, text))
		}
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		ps := textParts(joined(text(0)))
		if s, ok := asStr(text(0)); ok {
			n, err := strconv.Atoi(s)
			if err != nil {
				return one(tuple(zero(res0()), nonNilTerm(st, mk("fault:"+k.Name, tError, cStr(s)))))
			}
			return one(tuple(&Const{constant.MakeInt64(int64(n)), res0()}, &Nil{tError}))
		}
		if len(ps) == 1 {
			if t, ok := ps[0].(*Term); ok && isFld(t) {
				f := fldOf(t)
				if f.class != "d" {
					return one(tuple(cInt(0), nonNilTerm(st, mk("fault:"+k.Name, tError, t))))
				}
				v := mk("number", res0(), t)
				hi := int64(1)
				for i := 0; i < f.len; i++ {
					hi *= 10
				}
				st.setIv(v, 0, hi-1)
				return one(tuple(v, &Nil{tError}))
			}
		}
	case "strconv.ParseFloat":
		if v := joined(text(0)); fields(v) && len(textParts(v)) > 0 {
			for _, p := range textParts(v) {
				s, isS := asStr(p)
				t, _ := p.(*Term)
				if isS && strings.Trim(s, "0123456789.") != "" || t != nil && (!isFld(t) || fldOf(t).class != "d") {
					return one(tuple(zero(res0()), nonNilTerm(st, mk("fault:"+k.Name, tError, v))))
				}
			}
			return one(tuple(mk("number", res0(), v), &Nil{tError}))
		}
	case "time.Parse", "time.ParseInLocation":
		if v := joined(text(1)); fields(v) && len(textParts(v)) > 0 {
			l, ok := asStr(arg(0))
			if ok {
				day := mk("day:"+l, res0(), v)
				return []Outcome{
					{Res: tuple(day, &Nil{tError}), Do: func(s *State) bool { return s.assume(mk("valid", tBool, day), true) }},
					{Res: tuple(zero(res0()), nonNilTerm(st, mk("fault:"+k.Name, tError, v))), Do: func(s *State) bool { return s.assume(mk("valid", tBool, day), false) }},
				}, true
			}
		}
	case "(time.Time).Truncate", "(time.Time).UTC", "(time.Time).Local", "(time.Time).Round":
		if t, ok := arg(0).(*Term); ok && dateLike(t) && k.Name == "(time.Time).Truncate" {
			if n, ok := asInt(arg(1)); ok && n == 24*3600*1e9 {
				return one(t)
			}
		}
	case "time.Date":
		// a date put together from the parts of a date
		if yy, ok := asInt(arg(0)); ok {
			mm, ok1 := asInt(arg(1))
			dd, ok2 := asInt(arg(2))
			midnight := ok1 && ok2
			for i := 3; i < 7; i++ {
				if n, ok := asInt(arg(i)); !ok || n != 0 {
					midnight = false
				}
			}
			if midnight && strings.Contains(keyOf(arg(7)), "time.UTC") {
				return one(constDate(time.Date(yy, time.Month(mm), dd, 0, 0, 0, 0, time.UTC), res0()))
			}
		}
		y, ok := arg(0).(*Term)
		if ok && y.Op == "year" && dateLike(y.A[0]) {
			d := y.A[0]
			m, ok1 := stripInt(arg(1)).(*Term)
			dd, ok2 := stripInt(arg(2)).(*Term)
			same := ok1 && ok2 && m.Op == "month" && dd.Op == "dayof" && m.A[0].Key() == d.Key() && dd.A[0].Key() == d.Key()
			for i := 3; i < 7; i++ {
				if n, ok := asInt(arg(i)); !ok || n != 0 {
					same = false
				}
			}
			if same && strings.Contains(keyOf(arg(7)), "time.UTC") {
				return one(d)
			}
		}
	case "(time.Time).IsZero":
		v := in.deep(st, arg(0))
		if dateLike(wholeTerm(v)) {
			return one(cBool(false))
		}
		if z, ok := v.(*Struct); ok {
			all := true
			for _, f := range z.F {
				n, isInt := asInt(f)
				_, isN := f.(*Nil)
				all = all && (isInt && n == 0 || isN)
			}
			if all {
				return one(cBool(true))
			}
		}
	case "(time.Time).AddDate":
		if d := wholeTerm(in.deep(st, arg(0))); dateLike(d) {
			s := mk(fmt.Sprintf("shift:%s:%s:%s", keyOf(arg(1)), keyOf(arg(2)), keyOf(arg(3))), res0(), d)
			if x, ok := constDay(s); ok {
				return one(constDate(x, res0()))
			}
			return one(mk(fmt.Sprintf("shift:%s:%s:%s", keyOf(arg(1)), keyOf(arg(2)), keyOf(arg(3))), res0(), d))
		}
	case "(time.Time).Day":
		if d, ok := constDay(wholeTerm(in.deep(st, arg(0)))); ok {
			return one(cInt(int64(d.Day())))
		}
		y := mk("dayof", res0(), wholeTerm(in.deep(st, arg(0))))
		st.setIv(y, 1, 31)
		return one(y)
	case "(time.Time).Date":
		d := wholeTerm(in.deep(st, arg(0)))
		y, m, dd := mk("year", tInt, d), mk("month", k.Sig.Results().At(1).Type(), d), mk("dayof", tInt, d)
		st.setIv(y, 1000, 9999)
		st.setIv(m, 1, 12)
		st.setIv(dd, 1, 31)
		return one(tuple(y, m, dd))
	case "fmt.Sprintf", "strconv.Itoa", "strconv.FormatInt":
		o, ok := textHook(k)
		if !ok {
			if k.Name != "strconv.Itoa" {
				return nil, false
			}
			if n, isN := asInt(arg(0)); isN {
				return one(cStr(fmt.Sprint(n)))
			}
			o = []Outcome{{Res: mk("itoa", tString, stripInt(arg(0)))}}
		}
		for _, r := range o {
			for _, p := range textParts(r.Res) {
				if t, ok := p.(*Term); ok && t.Op == "itoa" {
					lo, hi := st.interval(t.A[0])
					if l, h := len(strconv.FormatInt(lo, 10)), len(strconv.FormatInt(hi, 10)); lo >= 0 && l == h {
						st.setIv(mk("len", tInt, t), int64(l), int64(l))
					}
				}
			}
		}
		return o, true
	case "(time.Time).Year":
		if d, ok := constDay(wholeTerm(in.deep(st, arg(0)))); ok {
			return one(&Const{constant.MakeInt64(int64(d.Year())), res0()})
		}
		y := mk("year", tInt, wholeTerm(in.deep(st, arg(0))))
		st.setIv(y, 1000, 9999)
		return one(y)
	case "(time.Time).Month":
		if d, ok := constDay(wholeTerm(in.deep(st, arg(0)))); ok {
			return one(&Const{constant.MakeInt64(int64(d.Month())), res0()})
		}
		y := mk("month", res0(), wholeTerm(in.deep(st, arg(0))))
		st.setIv(y, 1, 12)
		return one(y)
	case "unicode.IsDigit", "unicode.IsNumber", "unicode.IsLetter", "unicode.IsUpper":
		if n, ok := asInt(arg(0)); ok {
			b := unicode.IsDigit(rune(n))
			switch k.Name {
			case "unicode.IsLetter":
				b = unicode.IsLetter(rune(n))
			case "unicode.IsUpper":
				b = unicode.IsUpper(rune(n))
			}
			return one(cBool(b))
		}
		if t, ok := arg(0).(*Term); ok && strings.HasPrefix(t.Op, "chr:") {
			digit := t.Op == "chr:d"
			if t.Op == "chr:d" || t.Op == "chr:u" {
				return one(cBool(digit == (k.Name == "unicode.IsDigit" || k.Name == "unicode.IsNumber")))
			}
		}
	}
	var m string
	for _, p := range []string{"(*bytes.Buffer).", "(*bytes.Reader).", "(*strings.Reader).", "(*bufio.Reader)."} {
		if strings.HasPrefix(k.Name, p) {
			m = k.Name[len(p):]
		}
	}
	switch m {
	case "ReadRune", "ReadByte", "UnreadRune", "UnreadByte":
		o, path, content, ok := in.bufContent(st, k.Args[0])
		if !ok {
			return nil, false
		}
		key := fmt.Sprintf("unread:%d%v", o, path)
		var T types.Type = types.Typ[types.Invalid]
		if cur, ok := getPath(st.get(o), path); ok {
			T = orInvalid(valType(cur))
		}
		put := func(c Val) {
			if n, ok := setPath(st.get(o), path, mk("buf", T, c)); ok {
				st.set(o, n)
			}
		}
		if strings.HasPrefix(m, "Unread") {
			if prev, ok := st.notes[key]; ok && prev != nil {
				put(prev)
				return one(&Nil{tError})
			}
			return nil, false
		}
		ps := textParts(content)
		st.notes[key] = content
		if len(ps) == 0 {
			e := nonNilTerm(st, mk("EOF", tError))
			if m == "ReadByte" {
				return one(tuple(cInt(0), e))
			}
			return one(tuple(cInt(0), cInt(0), e))
		}
		var r Val
		if s, ok := asStr(ps[0]); ok {
			r = cInt(int64(s[0]))
			ps = append([]Val{cStr(s[1:])}, ps[1:]...)
		} else if t, ok := ps[0].(*Term); ok && isFld(t) {
			f := fldOf(t)
			head := f
			head.len = 1
			x := mk("chr:"+f.class, res0(), fldTerm(head))
			switch f.class {
			case "d":
				st.setIv(x, '0', '9')
			case "u":
				st.setIv(x, 'A', 'Z')
			}
			r = x
			if f.len == 1 {
				ps = ps[1:]
			} else {
				f.off++
				f.len--
				ps = append([]Val{fldTerm(f)}, ps[1:]...)
			}
		} else {
			return nil, false
		}
		put(catOf(tBytes, ps...))
		if m == "ReadByte" {
			return one(tuple(r, &Nil{tError}))
		}
		return one(tuple(r, cInt(1), &Nil{tError}))
	}
	return textHook(k)
}

// dateLike reports a date without a time of day, in UTC.
func dateLike(v Val) bool {
	t, ok := v.(*Term)
	return ok && (strings.HasPrefix(t.Op, "day:") && !strings.ContainsAny(t.Op[4:], "345-") || strings.HasPrefix(t.Op, "shift:"))
}

func isRunes(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Int32
}

// runesText is the text of known characters.
func runesText(st *State, ps []Part) (Val, bool) {
	var out []Val
	for _, p := range ps {
		v := st.resolve(p.V)
		if n, ok := asInt(v); ok && !p.Spread && n < 0x80 {
			out = append(out, cStr(string(rune(n))))
			continue
		}
		t, ok := stripInt(v).(*Term)
		if !ok || p.Spread || !strings.HasPrefix(t.Op, "chr:") {
			return nil, false
		}
		out = append(out, t.A[0])
	}
	return joined(catOf(tString, out...)), true
}

// wholeTerm undoes the expansion of a value into its fields.
func wholeTerm(v Val) Val {
	s, ok := v.(*Struct)
	if !ok || len(s.F) == 0 {
		return v
	}
	var whole Val
	for _, f := range s.F {
		t, ok := f.(*Term)
		if !ok || !strings.HasPrefix(t.Op, ".") || len(t.A) != 1 || whole != nil && whole.Key() != t.A[0].Key() {
			return v
		}
		whole = t.A[0]
	}
	return whole
}

func constDate(d time.Time, t types.Type) Val {
	return mk("day:20060102", t, cStr(d.Format("20060102")))
}

// trimmed returns the text without the characters of the cutset at its ends. A
// field that may begin or end with such a character yields a term: shortened
// when characters that carry information may be lost, trim when only blanks.
func trimmed(name string, typ types.Type, args []Val, text func(int) Val) Val {
	whole := mk("trim", typ, joined(text(0)))
	cutset := " \t\n\v\f\r"
	if len(args) > 1 {
		s, ok := asStr(text(1))
		if !ok {
			return whole
		}
		cutset = s
	}
	left, right := !strings.HasSuffix(name, "TrimRight"), !strings.HasSuffix(name, "TrimLeft")
	ps := append([]Val{}, textParts(joined(text(0)))...)
	lost := func(v Val) (stop bool, op string) {
		t, ok := v.(*Term)
		if !ok || fldLen(t) == 0 {
			return false, "trim"
		}
		may := false
		for _, r := range cutset {
			if strings.ContainsRune(atomChars(t), r) {
				may = true
				if r > ' ' {
					return false, "shortened"
				}
			}
		}
		if may {
			return false, "trim"
		}
		return true, ""
	}
	for side, on := range []bool{left, right} {
		for on && len(ps) > 0 {
			i := 0
			if side == 1 {
				i = len(ps) - 1
			}
			s, isS := asStr(ps[i])
			if !isS {
				stop, op := lost(ps[i])
				if !stop {
					return mk(op, typ, joined(text(0)))
				}
				break
			}
			rest := strings.TrimLeft(s, cutset)
			if side == 1 {
				rest = strings.TrimRight(s, cutset)
			}
			if rest != "" {
				ps[i] = cStr(rest)
				break
			}
			ps = append(ps[:i], ps[i+1:]...)
		}
	}
	return mk("conv", typ, catOf(tString, ps...))
}
