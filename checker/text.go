package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

// A small algebra of texts. Texts are concatenations of constants and atoms:
//
//	itoa(n)            decimal number
//	pad0(n,w)          decimal number padded with zeros to w places
//	intpart(x) fracpart(x) digits(x)   exact decimal places of a float
//	time:LAYOUT(t)     a formatted time
//	subst[...](x)      x with single characters replaced
//	enc:CS(x) dec:CS(x)  conversion from and to UTF-8
//
// textHook interprets the library functions that build and take apart texts.

const escOf = "subst"

func isAtom(t *Term) bool { return atomChars(t) != "" }

// atomChars lists the characters a rendered number or time can consist of.
func atomChars(t *Term) string {
	switch {
	case t.Op == "itoa" || t.Op == "pad0" || t.Op == "intpart":
		return "-0123456789"
	case t.Op == "digits":
		return "-0123456789"
	case t.Op == "fracpart":
		return "0123456789"
	case t.Op == "zeros":
		return "0"
	case isFld(t):
		return fldClass[fldOf(t).class]
	case (strings.HasPrefix(t.Op, "dec:") || strings.HasPrefix(t.Op, "enc:")) && len(t.A) == 1:
		if x, ok := t.A[0].(*Term); ok && isFld(x) {
			return atomChars(x)
		}
	case strings.HasPrefix(t.Op, "time:"):
		return "-0123456789" + strings.Map(func(r rune) rune {
			if r >= '0' && r <= '9' {
				return -1
			}
			return r
		}, t.Op[5:]) + ";"
	}
	return ""
}

func textParts(v Val) []Val {
	v = stripConv(v)
	if t, ok := v.(*Term); ok && t.Op == "cat" {
		var out []Val
		for _, a := range t.A {
			out = appendCat(out, a)
		}
		return out
	}
	return appendCat(nil, v)
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return false
		}
	}
	return true
}

// recode converts a text to ("enc") or from ("dec") a character set.
func recode(dir, cs string, v Val, t types.Type) Val {
	var out []Val
	for _, p := range textParts(v) {
		if s, ok := asStr(p); ok && ascii(s) {
			out = append(out, p)
			continue
		}
		if x, ok := p.(*Term); ok {
			if isAtom(x) && ascii(atomChars(x)) {
				out = append(out, p)
				continue
			}
			if dir == "dec" && x.Op == "enc:"+cs && len(x.A) == 1 {
				out = append(out, x.A[0])
				continue
			}
		}
		out = append(out, mk(dir+":"+cs, t, p))
	}
	return catOf(t, out...)
}

// pairsOf reads the pairs of a strings.Replacer term.
func (in *Interp) pairsOf(st *State, r Val) []string {
	r = st.resolve(r)
	if ic, ok := r.(*Iface); ok {
		r = ic.V
	}
	t, ok := r.(*Term)
	if !ok || !strings.Contains(t.Op, "strings.NewReplacer") || len(t.A) != 1 {
		return nil
	}
	sq, ok := in.deep(st, t.A[0]).(*Seq)
	if !ok {
		return nil
	}
	var l []string
	for _, pt := range sq.P {
		s, isS := asStr(pt.V)
		if !isS || pt.Spread {
			return nil
		}
		l = append(l, s)
	}
	if len(l) == 0 || len(l)%2 != 0 {
		return nil
	}
	return l
}

// substOp names a replacement by single characters, independent of the order
// of the pairs; "" if the pairs are no such replacement.
func substOp(pairs []string) string {
	m := map[string]string{}
	for i := 0; i < len(pairs); i += 2 {
		if len(pairs[i]) != 1 {
			return ""
		}
		if _, dup := m[pairs[i]]; !dup {
			m[pairs[i]] = pairs[i+1]
		}
	}
	var l []string
	for k, v := range m {
		l = append(l, fmt.Sprintf("%q=%q", k, v))
	}
	sort.Strings(l)
	return escOf + "[" + strings.Join(l, " ") + "]"
}

// substOf gives the replacement a term stands for.
func substOf(t *Term) map[string]string {
	if !strings.HasPrefix(t.Op, escOf+"[") {
		return nil
	}
	m := map[string]string{}
	for _, f := range splitQuoted(t.Op[len(escOf)+1 : len(t.Op)-1]) {
		m[f[0]] = f[1]
	}
	return m
}

func splitQuoted(s string) (out [][2]string) {
	for s != "" {
		var a, b string
		if _, err := fmt.Sscanf(s, "%q=%q", &a, &b); err != nil {
			return nil
		}
		out = append(out, [2]string{a, b})
		s = strings.TrimPrefix(s[len(fmt.Sprintf("%q=%q", a, b)):], " ")
	}
	return
}

// replaceText applies the pairs of a replacer to a text; nil if the effect is
// not known.
func replaceText(pairs []string, v Val) Val {
	op := substOp(pairs)
	var out []Val
	for _, p := range textParts(v) {
		if s, ok := asStr(p); ok {
			if op == "" && len(textParts(v)) > 1 {
				return mk("unsubst["+strings.Join(pairs, "\x1f")+"]", tString, v)
			}
			out = append(out, cStr(strings.NewReplacer(pairs...).Replace(s)))
			continue
		}
		x, ok := p.(*Term)
		if !ok {
			return nil
		}
		if ch := atomChars(x); ch != "" && op != "" {
			clash := false
			for i := 0; i < len(pairs); i += 2 {
				if strings.Contains(ch, pairs[i]) {
					clash = true
				}
			}
			if clash {
				return nil
			}
			out = append(out, x)
			continue
		}
		if op != "" {
			out = append(out, mk(op, tString, x))
			continue
		}
		if len(textParts(v)) == 1 {
			if m := substOf(x); m != nil && undoes(m, pairs) {
				return x.A[0]
			}
		}
		return mk("unsubst["+strings.Join(pairs, "\x1f")+"]", tString, v)
	}
	return catOf(tString, out...)
}

// releases reports the characters a replacement puts a release character in
// front of.
func releases(m map[string]string) (string, bool) {
	var l []string
	for k, v := range m {
		if v != "?"+k {
			return "", false
		}
		l = append(l, k)
	}
	sort.Strings(l)
	return strings.Join(l, ""), true
}

// undoes reports that the pairs are the inverse of the replacement: it puts a
// release character before a set of characters including itself, and the
// pairs take a release character away before each of these characters, and
// do nothing else to text so produced.
func undoes(m map[string]string, pairs []string) bool {
	set, ok := releases(m)
	if !ok || !strings.Contains(set, "?") {
		return false
	}
	got := map[string]bool{}
	for i := 0; i < len(pairs); i += 2 {
		o, n := pairs[i], pairs[i+1]
		if len(o) != 2 || o[0] != '?' {
			return false
		}
		if !strings.Contains(set, o[1:]) {
			continue
		}
		if n != o[1:] && !got[o] {
			return false
		}
		got[o] = true
	}
	return len(got) == len(set)
}

// charset names the character set of an encoder or decoder term.
func charsetOf(v Val) (dir, cs string) {
	walk(v, func(x Val) bool {
		if t, ok := x.(*Term); ok {
			if strings.Contains(t.Op, "NewEncoder") {
				dir = "enc"
			}
			if strings.Contains(t.Op, "NewDecoder") {
				dir = "dec"
			}
		}
		return true
	})
	k := v.Key()
	if i := strings.Index(k, "encoding/charmap."); i >= 0 {
		r := k[i+len("encoding/charmap."):]
		n := 0
		for n < len(r) && (r[n] == '_' || r[n] >= '0' && r[n] <= '9' || r[n] >= 'A' && r[n] <= 'Z' || r[n] >= 'a' && r[n] <= 'z') {
			n++
		}
		cs = r[:n]
		if strings.HasPrefix(cs, "Charmap") {
			cs = ""
			if j := strings.LastIndex(k, "charmap.ISO"); j >= 0 {
				r = k[j+len("charmap."):]
				n = 0
				for n < len(r) && (r[n] == '_' || r[n] >= '0' && r[n] <= '9' || r[n] >= 'A' && r[n] <= 'Z' || r[n] >= 'a' && r[n] <= 'z') {
					n++
				}
				cs = r[:n]
			}
		}
	}
	return
}

// findText locates the first occurrence of a separator: the parts before it and
// the parts behind it. known is false if an unknown part could contain it or a
// part of it.
func findText(ps []Val, sep string) (before, after []Val, found, known bool) {
	if sep == "" {
		return nil, nil, false, false
	}
	type place struct {
		set      string // characters possible here; "" at a part of unknown length
		part, at int
	}
	var places []place
	for i, p := range ps {
		if s, ok := asStr(p); ok {
			for j := range []byte(s) {
				places = append(places, place{s[j : j+1], i, j})
			}
			continue
		}
		ch, n := "", 0
		if t, ok := p.(*Term); ok {
			ch, n = atomChars(t), fldLen(t)
		}
		switch {
		case ch == "":
			places = append(places, place{"", i, -1})
		case n > 0:
			for j := 0; j < n; j++ {
				places = append(places, place{ch, i, j})
			}
		case strings.ContainsAny(ch, sep):
			places = append(places, place{"", i, -1})
		default:
			places = append(places, place{"\xff", i, 0}) // holds no character of the separator
		}
	}
	for i := range places {
		possible, definite := true, true
		for k := 0; k < len(sep) && possible; k++ {
			if i+k >= len(places) {
				possible = false
				break
			}
			p := places[i+k]
			if p.at < 0 {
				return nil, nil, false, false
			}
			if !strings.Contains(p.set, sep[k:k+1]) {
				possible = false
			} else if len(p.set) > 1 {
				definite = false
			}
		}
		if !possible {
			continue
		}
		if !definite {
			return nil, nil, false, false
		}
		p, q := places[i], places[i+len(sep)-1]
		before = append(before, ps[:p.part]...)
		if s, ok := asStr(ps[p.part]); ok && p.at > 0 {
			before = append(before, cStr(s[:p.at]))
		}
		if s, ok := asStr(ps[q.part]); ok && q.at+1 < len(s) {
			after = append(after, cStr(s[q.at+1:]))
		}
		after = append(after, ps[q.part+1:]...)
		return before, after, true, true
	}
	return ps, nil, false, true
}

func zeroFormat(f Val) (Val, bool) {
	ps := textParts(f)
	if len(ps) == 3 {
		a, ok1 := asStr(ps[0])
		b, ok2 := asStr(ps[2])
		if t, ok := ps[1].(*Term); ok && ok1 && ok2 && a == "%0" && b == "d" && t.Op == "itoa" {
			return t.A[0], true
		}
	}
	return nil, false
}

// textHook models the text functions of the standard library and of x/text.
func textHook(k *Call) ([]Outcome, bool) {
	in, st := k.In, k.St
	arg := func(i int) Val { return st.resolve(k.Args[i]) }
	text := func(i int) Val { return stripConv(in.bytesTerm(st, k.Args[i])) }
	one := func(v Val) ([]Outcome, bool) { return []Outcome{{Res: v}}, true }
	res0 := func() types.Type { return k.Sig.Results().At(0).Type() }
	switch k.Name {
	case "(*golang.org/x/text/encoding.Encoder).Bytes", "(*golang.org/x/text/encoding.Encoder).String",
		"(*golang.org/x/text/encoding.Decoder).Bytes", "(*golang.org/x/text/encoding.Decoder).String":
		dir, cs := charsetOf(in.deep(st, k.Args[0]))
		if dir == "" || cs == "" {
			return nil, false
		}
		return one(tuple(recode(dir, cs, text(1), res0()), &Nil{tError}))
	case "(*strings.Replacer).Replace":
		if pairs := in.pairsOf(st, k.Args[0]); pairs != nil {
			if r := replaceText(pairs, text(1)); r != nil {
				return one(r)
			}
		}
	case "strings.Replace", "strings.ReplaceAll", "bytes.Replace", "bytes.ReplaceAll":
		old, ok1 := asStr(text(1))
		nw, ok2 := asStr(text(2))
		n := -1
		if len(k.Args) == 4 {
			n, _ = asInt(arg(3))
		}
		if !ok1 || !ok2 || old == "" {
			return nil, false
		}
		var done, rest []Val
		rest = textParts(text(0))
		for n != 0 {
			b, a, found, known := findText(rest, old)
			if !known {
				if n < 0 && len(done) == 0 && len(old) == 1 {
					if r := replaceText([]string{old, nw}, text(0)); r != nil {
						return one(retypeStr(r, res0()))
					}
				}
				return nil, false
			}
			done = append(done, b...)
			if !found {
				rest = nil
				break
			}
			if nw != "" {
				done = append(done, cStr(nw))
			}
			rest = a
			n--
		}
		return one(catOf(res0(), append(done, rest...)...))
	case "strings.Contains", "strings.ContainsRune", "strings.ContainsAny", "bytes.Contains":
		s, ok := asStr(text(1))
		if k.Name == "strings.ContainsRune" {
			var r int
			if r, ok = asInt(arg(1)); ok {
				s = string(rune(r))
			}
		}
		if ok && s != "" {
			if _, _, found, known := findText(textParts(text(0)), s); known {
				return one(cBool(found))
			}
		}
	case "strings.Index", "strings.IndexByte", "strings.IndexRune", "bytes.IndexByte", "bytes.Index", "bytes.IndexRune":
		s, ok := "", false
		if n, isN := asInt(arg(1)); isN {
			s, ok = string(rune(n)), true
		} else {
			s, ok = asStr(text(1))
		}
		if ok && s != "" {
			b, _, found, known := findText(textParts(text(0)), s)
			if known && !found {
				return one(cInt(-1))
			}
			if known {
				return one(in.lenVal(st, catOf(tString, b...)))
			}
		}
	case "strings.Cut", "bytes.Cut":
		if s, ok := asStr(text(1)); ok && s != "" {
			b, a, found, known := findText(textParts(text(0)), s)
			if known {
				return one(tuple(catOf(res0(), b...), catOf(res0(), a...), cBool(found)))
			}
		}
	case "strings.HasPrefix", "bytes.HasPrefix", "strings.HasSuffix", "bytes.HasSuffix":
		s, ok := asStr(text(1))
		ps := textParts(text(0))
		if !ok || len(ps) == 0 {
			break
		}
		i, has := 0, strings.HasPrefix
		if strings.HasSuffix(k.Name, "Suffix") {
			i, has = len(ps)-1, strings.HasSuffix
		}
		if c, isC := asStr(ps[i]); isC && (len(c) >= len(s) || len(ps) == 1 || !has(s, c)) {
			return one(cBool(has(c, s)))
		}
	case "strings.SplitN", "bytes.SplitN":
		s, ok := asStr(text(1))
		if n, isN := asInt(arg(2)); ok && isN && n == 2 && s != "" {
			if b, a, found, known := findText(textParts(text(0)), s); known {
				e := res0().Underlying().(*types.Slice).Elem()
				l := []Part{{V: catOf(e, b...)}}
				if found {
					l = append(l, Part{V: catOf(e, a...)})
				}
				return one(in.newSlice(st, res0(), l))
			}
		}
	case "strings.TrimSuffix", "strings.TrimPrefix", "bytes.TrimSuffix", "bytes.TrimPrefix":
		s, ok := asStr(text(1))
		ps := textParts(text(0))
		if ok && s != "" && len(ps) > 0 {
			i := 0
			if strings.HasSuffix(k.Name, "Suffix") {
				i = len(ps) - 1
			}
			if c, isC := asStr(ps[i]); isC && (len(c) >= len(s) || len(ps) == 1) {
				q := append([]Val(nil), ps...)
				if i > 0 || strings.HasSuffix(k.Name, "Suffix") {
					q[i] = cStr(strings.TrimSuffix(c, s))
				} else {
					q[i] = cStr(strings.TrimPrefix(c, s))
				}
				return one(catOf(res0(), q...))
			}
			if t, isT := ps[i].(*Term); isT && atomChars(t) != "" && !strings.ContainsAny(atomChars(t), s) {
				return one(catOf(res0(), ps...))
			}
		}
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		if len(k.Args) == 3 {
			if b, _ := asInt(arg(1)); b != 10 {
				return nil, false
			}
			if b, _ := asInt(arg(2)); b != 0 && b != 64 {
				return nil, false
			}
		}
		ps := textParts(text(0))
		if len(ps) > 0 && rendered(ps) && !(len(ps) == 1 && isNumber(ps[0])) && !(len(ps) == 2 && isNumber(ps[1])) {
			return one(tuple(mk("misread", res0(), catOf(tString, ps...)), &Nil{tError}))
		}
		if len(ps) == 2 {
			if z, ok := ps[0].(*Term); ok && z.Op == "zeros" {
				ps = ps[1:]
			}
		}
		if len(ps) == 1 {
			if t, ok := ps[0].(*Term); ok && (t.Op == "itoa" || t.Op == "pad0") {
				return one(tuple(stripInt(t.A[0]), &Nil{tError}))
			}
		}
	case "strconv.FormatInt", "strconv.FormatUint":
		if b, _ := asInt(arg(1)); b == 10 {
			return one(mk("itoa", tString, stripInt(arg(0))))
		}
	case "strconv.FormatFloat":
		f, _ := asInt(arg(1))
		p, okp := asInt(arg(2))
		b, _ := asInt(arg(3))
		if f == 'f' && okp && p == -1 && b == 64 {
			x := arg(0)
			whole := mk("integral", tBool, x)
			return []Outcome{
				{Res: mk("digits", tString, x), Do: func(s *State) bool { return s.assume(whole, true) }},
				{Res: catOf(tString, mk("intpart", tString, x), cStr("."), mk("fracpart", tString, x)), Do: func(s *State) bool { return s.assume(whole, false) }},
			}, true
		}
		return one(mk(fmt.Sprintf("float:%s:%s:%s", keyText(arg(1)), keyText(arg(2)), keyText(arg(3))), tString, arg(0)))
	case "strconv.ParseFloat":
		if b, _ := asInt(arg(1)); b != 64 {
			return nil, false
		}
		if x := floatOf(textParts(text(0))); x != nil {
			return one(tuple(x, &Nil{tError}))
		}
		if ps := textParts(text(0)); rendered(ps) {
			return one(tuple(mk("misread", res0(), catOf(tString, ps...)), &Nil{tError}))
		}
	case "strings.Repeat":
		if s, ok := asStr(text(0)); ok && s == "0" {
			return one(mk("zeros", tString, arg(1)))
		}
	case "fmt.Sprintf":
		if n, ok := zeroFormat(text(0)); ok {
			if as, ok := in.variadic(st, k.Args[1]); ok && len(as) == 1 {
				return one(mk("pad0", tString, st.resolve(unbox(as[0])), n))
			}
		}
		if f, ok := asStr(text(0)); ok && f == "%0*d" {
			if as, ok := in.variadic(st, k.Args[1]); ok && len(as) == 2 {
				return one(mk("pad0", tString, st.resolve(unbox(as[1])), st.resolve(unbox(as[0]))))
			}
		}
		if s, ok := in.sprintf(st, k.Args[0], k.Args[1]).(*Term); ok {
			return one(padded(s))
		}
	case "(time.Time).Format":
		if l, ok := asStr(arg(1)); ok {
			return one(mk("time:"+l, tString, arg(0)))
		}
	case "(time.Time).UTC":
		if t, ok := arg(0).(*Term); ok && strings.HasPrefix(t.Op, "cut:") {
			return one(t) // parsed without a zone
		}
	case "(time.Time).AppendFormat":
		if l, ok := asStr(arg(2)); ok {
			return one(catOf(tBytes, text(1), mk("time:"+l, tString, arg(0))))
		}
	case "time.Parse", "time.ParseInLocation":
		l, ok := asStr(arg(0))
		ps := textParts(text(1))
		if ok && len(ps) == 1 {
			if t, isT := ps[0].(*Term); isT && strings.HasPrefix(t.Op, "time:") {
				if t.Op != "time:"+l {
					return one(tuple(mk("misread:"+l, res0(), t), &Nil{tError}))
				}
				return one(tuple(mk("cut:"+l, res0(), t.A[0]), &Nil{tError}))
			}
		}
	}
	return readHook(k)
}

// padded replaces the rendering of a zero padded number by pad0.
func padded(t *Term) Val {
	var out []Val
	for _, p := range textParts(t) {
		x, ok := p.(*Term)
		if ok && strings.HasPrefix(x.Op, "fmt:%0") && strings.HasSuffix(x.Op, "d") && len(x.A) == 1 {
			n := 0
			if _, err := fmt.Sscanf(x.Op, "fmt:%%0%dd", &n); err == nil && x.Op == fmt.Sprintf("fmt:%%0%dd", n) {
				v := unbox(x.A[0])
				if tt := valType(v); tt != nil && isInteger(tt) {
					out = append(out, mk("pad0", tString, v, cInt(int64(n))))
					continue
				}
			}
		}
		out = append(out, p)
	}
	return catOf(tString, out...)
}

// rendered reports that a text consists of rendered numbers, times and at
// most some constants.
func rendered(ps []Val) bool {
	atoms := 0
	for _, p := range ps {
		if _, ok := asStr(p); ok {
			continue
		}
		t, ok := p.(*Term)
		if !ok || !isAtom(t) {
			return false
		}
		atoms++
	}
	return atoms > 0
}

func isNumber(v Val) bool {
	t, ok := v.(*Term)
	return ok && (t.Op == "itoa" || t.Op == "pad0")
}

func unbox(v Val) Val {
	if ic, ok := v.(*Iface); ok {
		return ic.V
	}
	return v
}

func keyText(v Val) string { return v.Key() }

// stripInt removes conversions between integer types.
func stripInt(v Val) Val {
	for {
		t, ok := v.(*Term)
		if !ok || t.Op != "conv" || len(t.A) != 1 {
			return v
		}
		a := valType(t.A[0])
		if a == nil || !isInteger(a) || !isInteger(t.T) {
			return v
		}
		v = t.A[0]
	}
}

// floatOf is the number whose exact decimal places with a point are given.
func floatOf(ps []Val) Val {
	get := func(i int, op string) Val {
		if t, ok := ps[i].(*Term); ok && t.Op == op {
			return t.A[0]
		}
		return nil
	}
	dot := func(i int) bool {
		s, ok := asStr(ps[i])
		return ok && s == "."
	}
	switch len(ps) {
	case 1:
		return get(0, "digits")
	case 2:
		if dot(1) {
			return get(0, "digits")
		}
	case 3:
		if a, b := get(0, "intpart"), get(2, "fracpart"); a != nil && b != nil && dot(1) && a.Key() == b.Key() {
			return a
		}
	}
	return nil
}

// readHook models reading from a buffer whose content is known.
func readHook(k *Call) ([]Outcome, bool) {
	in, st := k.In, k.St
	one := func(v Val) ([]Outcome, bool) { return []Outcome{{Res: v}}, true }
	name := k.Name
	switch name {
	case "bytes.NewReader", "strings.NewReader", "bufio.NewReader":
		c := stripConv(in.bytesTerm(st, k.Args[0]))
		if name == "bufio.NewReader" {
			_, _, cc, ok := in.bufContent(st, unbox(k.Args[0]))
			if !ok {
				return nil, false
			}
			c = cc
		}
		rt := k.Sig.Results().At(0).Type()
		return one(&Ptr{Obj: st.alloc(mk("buf", under(rt).(*types.Pointer).Elem(), c))})
	case "io.ReadFull", "io.ReadAtLeast":
		return readInto(k, k.Args[0], k.Args[1])
	case "io.ReadAll", "io/ioutil.ReadAll":
		_, _, c, ok := in.bufContent(st, unbox(st.resolve(k.Args[0])))
		if ok {
			return one(tuple(retypeStr(c, tBytes), &Nil{tError}))
		}
		return nil, false
	}
	var m string
	for _, p := range []string{"(*bytes.Buffer).", "(*bytes.Reader).", "(*strings.Reader).", "(*bufio.Reader)."} {
		if strings.HasPrefix(name, p) {
			m = name[len(p):]
		}
	}
	switch m {
	case "ReadRune", "ReadByte", "ReadString", "ReadBytes", "ReadSlice", "Read", "Next", "UnreadByte":
	default:
		return nil, false
	}
	o, path, content, ok := in.bufContent(st, k.Args[0])
	if !ok {
		return nil, false
	}
	ps := textParts(content)
	put := func(rest []Val) bool {
		var T types.Type = types.Typ[types.Invalid]
		if cur, ok := getPath(st.get(o), path); ok {
			T = orInvalid(valType(cur))
		}
		n, ok := setPath(st.get(o), path, mk("buf", T, catOf(tBytes, rest...)))
		if ok {
			st.set(o, n)
		}
		return ok
	}
	switch m {
	case "ReadRune", "ReadByte":
		if len(ps) == 0 {
			return nil, false
		}
		s, ok := asStr(ps[0])
		if !ok || s == "" || s[0] >= 0x80 {
			return nil, false
		}
		put(append([]Val{cStr(s[1:])}, ps[1:]...))
		if m == "ReadByte" {
			return one(tuple(cInt(int64(s[0])), &Nil{tError}))
		}
		return one(tuple(cInt(int64(s[0])), cInt(1), &Nil{tError}))
	case "ReadString", "ReadBytes", "ReadSlice":
		d, ok := asInt(st.resolve(k.Args[1]))
		if !ok {
			return nil, false
		}
		b, a, found, known := findText(ps, string(rune(d)))
		if !known || !found {
			return nil, false
		}
		put(a)
		return one(tuple(catOf(k.Sig.Results().At(0).Type(), append(append([]Val{}, b...), cStr(string(rune(d))))...), &Nil{tError}))
	case "Next":
		want := st.resolve(k.Args[1])
		if a, b, ok := cutAt(in, st, ps, want); ok {
			put(b)
			return one(catOf(tBytes, a...))
		}
	case "Read":
		return readInto(k, k.Args[0], k.Args[1])
	}
	return nil, false
}

// cutAt splits the parts behind n bytes.
func cutAt(in *Interp, st *State, ps []Val, n Val) (a, b []Val, ok bool) {
	nb, no := linear(st.resolve(n))
	var lb Val
	var lo int64
	for i := 0; i <= len(ps); i++ {
		if i > 0 {
			b, o := linear(st.resolve(in.lenVal(st, ps[i-1])))
			lo += o
			if b != nil && lb != nil {
				lb = mk("+", tInt, lb, b)
			} else if b != nil {
				lb = b
			}
		}
		same := lb == nil && nb == nil || lb != nil && nb != nil && lb.Key() == nb.Key()
		if !same {
			continue
		}
		if lo == no {
			return ps[:i], ps[i:], true
		}
		if i < len(ps) && no > lo {
			if x, y, ok := splitPart(st, ps[i], int(no-lo)); ok {
				return append(append([]Val{}, ps[:i]...), x), append([]Val{y}, ps[i+1:]...), true
			}
		}
	}
	return nil, nil, false
}

// readInto fills a slice from a reader.
func readInto(k *Call, r, buf Val) ([]Outcome, bool) {
	in, st := k.In, k.St
	o, path, content, ok := in.bufContent(st, unbox(st.resolve(r)))
	if !ok {
		return nil, false
	}
	sl, ok := st.resolve(buf).(*Slice)
	if !ok || sl.Lo != 0 || sl.Hi >= 0 {
		return nil, false
	}
	n := in.lenVal(st, sl)
	a, b, ok := cutAt(in, st, textParts(content), n)
	if !ok {
		return nil, false
	}
	var T types.Type = types.Typ[types.Invalid]
	if cur, ok := getPath(st.get(o), path); ok {
		T = orInvalid(valType(cur))
	}
	nv, ok := setPath(st.get(o), path, mk("buf", T, catOf(tBytes, b...)))
	if !ok {
		return nil, false
	}
	st.set(o, nv)
	st.set(sl.Obj, &Seq{P: []Part{{V: catOf(tBytes, a...), Spread: true}}})
	return []Outcome{{Res: tuple(n, &Nil{tError})}}, true
}
