package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"strings"
)

func init() { checks["P30"] = checkP30 }

// listing describes a printable record or list of records of the domain.
type listing struct {
	name    string
	list    bool
	cols    map[string][]string // heading -> attributes shown below it, in order
	extra   map[string][]string // attributes that may follow them
	absent  map[string]string   // heading -> optional attribute
	must    []string            // headings that are always present
	before  [][]string          // lines above the table, about the first entry
	after   [][]string          // lines below the table, about the last entry
	amounts bool
}

var money = func(p string) []string { return []string{p + ".Amount", p + ".Currency"} }

func cat2(a []string, b ...string) []string { return append(append([]string(nil), a...), b...) }

var listings = func() (out []listing) {
	bal := func(name, a, b string, list bool) listing {
		l := listing{name: name, list: list,
			cols: map[string][]string{
				"Product Name": {"ProductName"}, a: {"Account." + a}, b: {"Account." + b},
				"BookingDate": {"BookedBalance.TransmissionDate"}, "Amount": money("BookedBalance.Amount"),
			},
			must: []string{a, b, "BookingDate", "Amount"},
		}
		if list {
			l.cols["Limit"] = money("CreditLimit")
			l.extra = map[string][]string{"Amount": money("EarmarkedBalance.Amount")}
			l.absent = map[string]string{"Limit": "CreditLimit"}
			l.must = cat2(l.must, "Product Name", "Limit")
		}
		return l
	}
	out = append(out, bal("AccountBalances", "BankID", "AccountID", true), bal("AccountBalance", "BankID", "AccountID", false),
		bal("SepaAccountBalances", "BIC", "IBAN", true), bal("SepaAccountBalance", "BIC", "IBAN", false))
	for _, n := range []string{"AccountInfos", "AccountInformation"} {
		out = append(out, listing{name: n, list: n == "AccountInfos",
			cols: map[string][]string{
				"BankID": {"AccountConnection.BankID"}, "AccountID": {"AccountConnection.AccountID"}, "UserID": {"UserID"}, "Currency": {"Currency"},
				"Name": {"Name1", "Name2"}, "ProductID": {"ProductID"}, "Limit": {"Limit.Kind", "Limit.Amount.Amount", "Limit.Amount.Currency"},
			},
			absent: map[string]string{"Limit": "Limit"},
			must:   []string{"BankID", "AccountID", "UserID", "Currency", "Name", "ProductID", "Limit"},
		})
	}
	tx := map[string][]string{
		"BookingDate": {"BookingDate"}, "Booking Text": {"BookingText"}, "Amount": money("Amount"), "BankID": {"BankID"}, "AccountID": {"AccountID"},
		"Name": {"Name"}, "Purpose": {"Purpose"},
	}
	out = append(out, listing{name: "AccountTransaction", cols: tx, must: []string{"BookingDate", "Amount", "BankID", "AccountID", "Purpose"}},
		listing{name: "AccountTransactions", list: true, cols: tx,
			must:   []string{"BookingDate", "Booking Text", "Amount", "BankID", "AccountID", "Name", "Purpose"},
			before: [][]string{{"Account.BankID", "Account.AccountID"}, cat2([]string{"AccountBalanceBefore.TransmissionDate"}, money("AccountBalanceBefore.Amount")...)},
			after:  [][]string{cat2([]string{"AccountBalanceAfter.TransmissionDate"}, money("AccountBalanceAfter.Amount")...)},
		})
	return
}()

// tabHook models the writer that aligns columns as passing its text on.
func tabHook(k *Call) ([]Outcome, bool) {
	in, st := k.In, k.St
	const tw = "text/tabwriter"
	isTab := func(v Val) (Val, bool) {
		v = st.resolve(v)
		if i, ok := v.(*Iface); ok && strings.HasSuffix(i.Dyn.String(), "tabwriter.Writer") {
			return st.resolve(i.V), true
		}
		return nil, false
	}
	target := func(v Val) Val {
		if p, ok := st.resolve(v).(*Ptr); ok {
			return st.notes[fmt.Sprintf("tab:%d", p.Obj)]
		}
		return nil
	}
	switch k.Name {
	case tw + ".NewWriter", "(*" + tw + ".Writer).Init":
		rt := k.Sig.Results().At(0).Type()
		out := k.Args[0]
		var p *Ptr
		if k.Name != tw+".NewWriter" {
			q, ok := st.resolve(k.Args[0]).(*Ptr)
			if !ok {
				return nil, false
			}
			p, out = q, k.Args[1]
		} else {
			p = &Ptr{Obj: st.alloc(mk("buf", under(rt).(*types.Pointer).Elem(), cStr("")))}
		}
		st.notes[fmt.Sprintf("tab:%d", p.Obj)] = st.resolve(out)
		return []Outcome{{Res: p}}, true
	case "(*" + tw + ".Writer).Flush":
		t := target(k.Args[0])
		o, path, c, ok := in.bufContent(st, k.Args[0])
		if t == nil || !ok || !in.bufAppend(st, t, c) {
			return nil, false
		}
		if n, ok := setPath(st.get(o), path, mk("buf", types.Typ[types.Invalid], cStr(""))); ok {
			st.set(o, n)
		}
		return []Outcome{{Res: &Nil{tError}}}, true
	case "(*" + tw + ".Writer).Write":
		in.bufAppend(st, k.Args[0], k.Args[1])
		return []Outcome{{Res: tuple(in.lenVal(st, k.Args[1]), &Nil{tError})}}, true
	case "fmt.Fprint", "fmt.Fprintln", "fmt.Fprintf", "io.WriteString":
		w, ok := isTab(k.Args[0])
		if !ok {
			return nil, false
		}
		var txt Val
		switch k.Name {
		case "fmt.Fprintf":
			txt = in.sprintf(st, k.Args[1], k.Args[2])
		case "io.WriteString":
			txt = st.resolve(k.Args[1])
		default:
			as, ok := in.variadic(st, st.resolve(k.Args[1]))
			if !ok {
				return nil, false
			}
			var vs []Val
			for i, a := range as {
				ic, ok := st.resolve(a).(*Iface)
				if !ok || !isString(ic.Dyn) {
					return nil, false
				}
				if i > 0 && k.Name == "fmt.Fprintln" {
					vs = append(vs, cStr(" "))
				}
				vs = append(vs, ic.V)
			}
			if k.Name == "fmt.Fprintln" {
				vs = append(vs, cStr("\n"))
			}
			txt = catOf(tString, vs...)
		}
		in.bufAppend(st, w, txt)
		return []Outcome{{Res: tuple(in.lenVal(st, txt), &Nil{tError})}}, true
	}
	return textHook(k)
}

// attrPath names the attribute of a symbol a value is, such as e1.Account.IBAN.
func attrPath(v Val) string {
	t, ok := stripConv(v).(*Term)
	if !ok {
		return "?" + keyOf(v)
	}
	switch {
	case len(t.A) == 0:
		return t.Op
	case strings.HasPrefix(t.Op, ".") && len(t.A) == 1:
		return attrPath(t.A[0]) + t.Op
	case (t.Op == "deref" || t.Op == "*" || t.Op == "load") && len(t.A) == 1:
		return attrPath(t.A[0])
	}
	return "?" + t.Key()
}

var twoPlaces = regexp.MustCompile(`^fmt:%[-+ 0#]*\d*\.2f$`)

// shown describes a non-constant piece of a printed text.
func printedAs(v Val) (path, as string) {
	v = stripConv(v)
	t, ok := v.(*Term)
	if !ok {
		return "?" + keyOf(v), ""
	}
	strip := func(x Val) Val {
		x = stripConv(x)
		if i, ok := x.(*Iface); ok {
			x = stripConv(i.V)
		}
		return x
	}
	switch {
	case twoPlaces.MatchString(t.Op) && len(t.A) == 1:
		return attrPath(strip(t.A[0])), "amount"
	case strings.HasPrefix(t.Op, "float:102:2:") && len(t.A) == 1:
		return attrPath(t.A[0]), "amount"
	case strings.HasPrefix(t.Op, "time:") && len(t.A) >= 1:
		l := t.Op[5:]
		if strings.Contains(l, "2006") && strings.Contains(l, "01") && strings.Contains(l, "02") {
			return attrPath(t.A[0]), "date"
		}
		return attrPath(t.A[0]), "part of a date"
	case (t.Op == "itoa" || t.Op == "fmt:%d") && len(t.A) == 1:
		return attrPath(strip(t.A[0])), "number"
	case (t.Op == "fmt:%q" || t.Op == "fmt:%s" || t.Op == "fmt:%v") && len(t.A) == 1:
		return attrPath(strip(t.A[0])), "text"
	}
	return attrPath(t), "text"
}

// tableLines splits a text at line ends and tabulators.
func tableLines(v Val) (out [][][]Val) {
	out = [][][]Val{{nil}}
	add := func(x Val) {
		l := out[len(out)-1]
		l[len(l)-1] = append(l[len(l)-1], x)
	}
	for _, p := range textParts(v) {
		s, ok := asStr(p)
		if !ok {
			add(p)
			continue
		}
		cur := ""
		flush := func() {
			if cur != "" {
				add(cStr(cur))
			}
			cur = ""
		}
		for _, r := range s {
			switch r {
			case '\n':
				flush()
				out = append(out, [][]Val{nil})
			case '\t':
				flush()
				out[len(out)-1] = append(out[len(out)-1], nil)
			default:
				cur += string(r)
			}
		}
		flush()
	}
	return
}

func cellText(c []Val) (txt string, vals []Val) {
	for _, v := range c {
		if s, ok := asStr(v); ok {
			txt += s
		} else {
			vals = append(vals, v)
		}
	}
	return strings.TrimSpace(txt), vals
}

func checkP30(c *Ctx) {
	c.Rule("rows", "a printed list has one row per entry, in the order of the list, below one line of headings", 8)
	c.Rule("cells", "below every heading an entry's row shows exactly that entry's attribute of that name: amounts with two places and their own currency, dates in full; an absent limit is not shown as a number, a present one is", 40)
	c.Rule("summary", "the lines around the transactions show account and balance before of the first, and the balance after of the last transaction", 2)
	c.Rule("acknowledgement", "the text of an acknowledgement shows its own code, text, position, segment and parameters", 4)
	c.Assume = append(c.Assume, "lists of up to two entries stand for longer ones", "the column writer of the standard library only aligns its text")
	for _, l := range listings {
		c.printed(l)
	}
	c.ackText()
}

// fieldKind is the kind of the attribute at a dotted path of a type.
func fieldKind(t types.Type, path string) string {
	for _, f := range strings.Split(path, ".") {
		o, _, _ := types.LookupFieldOrMethod(t, true, nil, f)
		if o == nil {
			return ""
		}
		t = o.Type()
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
		}
	}
	switch {
	case strings.HasSuffix(t.String(), "time.Time"):
		return "date"
	case isString(t):
		return "text"
	case isInteger(t):
		return "number"
	}
	if b, ok := under(t).(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return "amount"
	}
	return ""
}

func (c *Ctx) printed(l listing) {
	p := c.P
	n := p.TypeNamed("domain", l.name)
	if n == nil {
		c.Undecided("rows", l.name, "no such type")
		return
	}
	fn := p.MethodOpt(n, "String")
	if fn == nil {
		fn = p.MethodOpt(types.NewPointer(n), "String")
	}
	if fn == nil {
		c.Undecided("rows", l.name, "the type has no printed form")
		return
	}
	where := p.Pos(fn.Pos())
	sizes := []int{1}
	var et types.Type = n
	if l.list {
		sizes = []int{0, 1, 2}
		et = under(n).(*types.Slice).Elem()
	}
	for _, size := range sizes {
		lab := l.name
		if l.list {
			lab = fmt.Sprintf("%s of %d", l.name, size)
		}
		st := p.NewState()
		in := NewInterp(p)
		in.ConvFork = false
		in.Hook = tabHook
		in.DeepN = 10
		in.CheckNil = true
		var entries []*Term
		var ps []Part
		for i := 0; i < size; i++ {
			e := sym(fmt.Sprintf("e%d", i), et)
			entries = append(entries, e)
			ps = append(ps, Part{V: e})
		}
		var arg Val
		if l.list {
			arg = in.newSlice(st, n, ps)
		} else if _, ok := fn.Params[0].Type().(*types.Pointer); ok {
			arg = &Ptr{Obj: st.alloc(entries[0])}
		} else {
			arg = entries[0]
		}
		done := 0
		for _, q := range in.Run(st, fn, arg) {
			if q.Kind != "return" || len(q.Res) != 1 {
				c.Check("rows", lab, q.Kind == "stop", where, "printing ends with %s", q.Kind)
				continue
			}
			done++
			c.judgeTable(l, lab, where, et, entries, q, in.deep(q.St, q.Res[0]))
		}
		c.use(in)
		if done == 0 {
			c.Check("rows", lab, false, where, "no execution ends normally")
		}
	}
}

func (c *Ctx) judgeTable(l listing, lab, where string, et types.Type, entries []*Term, q Path, text Val) {
	lines := tableLines(text)
	head := -1
	col := map[string]int{}
	for i, ln := range lines {
		_, any := cellText(ln[0])
		if len(ln) >= 2 && len(any) == 0 {
			head = i
			for j, cell := range ln {
				if t, _ := cellText(cell); t != "" {
					col[t] = j
				}
			}
			break
		}
	}
	if head < 0 {
		c.Check("rows", lab, false, where, "no line of headings in %s", cut(keyOf(text)))
		return
	}
	for _, m := range l.must {
		_, ok := col[m]
		c.Check("rows", lab, ok, where, "no heading %q", m)
	}
	var rows [][][]Val
	var above, below [][]Val
	for i, ln := range lines {
		var vals []Val
		for _, cell := range ln {
			_, v := cellText(cell)
			vals = append(vals, v...)
		}
		switch {
		case i == head || len(vals) == 0:
		case len(ln) >= 2:
			rows = append(rows, ln)
		case i < head:
			above = append(above, vals)
		default:
			below = append(below, vals)
		}
		if i < head && len(ln) >= 2 {
			c.Check("rows", lab, false, where, "a row above the headings")
		}
	}
	c.Check("rows", lab, len(rows) == len(entries), where, "%d rows for %d entries", len(rows), len(entries))
	same := func(vals []Val, root string, want []string) string {
		for i := range want {
			if i >= len(vals) {
				return root + "." + want[i] + " is missing"
			}
			path, as := printedAs(vals[i])
			kind := fieldKind(et, want[i])
			if path != root+"."+want[i] {
				return fmt.Sprintf("shows %s instead of %s", cut(path), root+"."+want[i])
			}
			if as != kind && !(kind == "number" && as == "text") {
				return fmt.Sprintf("shows %s as %s, not as %s", path, as, kind)
			}
		}
		return ""
	}
	for i, ln := range rows {
		if i >= len(entries) {
			break
		}
		root := entries[i].Op
		for h, j := range col {
			want, known := l.cols[h]
			if !known {
				continue
			}
			if j >= len(ln) {
				c.Check("cells", lab+" "+h, false, where, "row %d has no cell below %q", i+1, h)
				continue
			}
			txt, vals := cellText(ln[j])
			if a := l.absent[h]; a != "" {
				nn := q.St.nilness(attrTerm(entries[i], a))
				if nn == 1 {
					c.Check("cells", lab+" "+h+" absent", len(vals) == 0 && !strings.ContainsAny(txt, "0123456789"), where, "row %d shows %q for an absent value", i+1, txt)
					continue
				}
			}
			bad := same(vals, root, want)
			rest := vals
			if bad == "" {
				rest = vals[len(want):]
			}
			if ex := l.extra[h]; bad == "" && ex != nil {
				opt := strings.SplitN(ex[0], ".", 2)[0]
				ot := attrTerm(entries[i], opt)
				zero, zk := false, false
				if q.St.nilness(ot) != 1 {
					zero, zk = q.St.truth(mk("==", tBool, attrTerm(entries[i], ex[0]), cFloat0))
				}
				switch {
				case len(rest) > 0:
					bad = same(rest, root, ex)
					if bad == "" && len(rest) > len(ex) {
						bad = "shows more than " + strings.Join(ex, ", ")
					}
				case q.St.nilness(ot) == 1 || zk && zero:
				default:
					bad = root + "." + opt + " is not shown"
				}
				rest = nil
			}
			if bad == "" && len(rest) > 0 {
				path, _ := printedAs(rest[0])
				bad = "shows also " + cut(path)
			}
			c.Check("cells", lab+" "+h, bad == "", where, "below %q row %d %s", h, i+1, bad)
		}
		for j, cell := range ln {
			_, vals := cellText(cell)
			if len(vals) == 0 {
				continue
			}
			under := false
			for _, k := range col {
				under = under || k == j
			}
			c.Check("cells", lab, under, where, "row %d shows a value below no heading", i+1)
		}
	}
	if l.before != nil || l.after != nil {
		cmp := func(what string, got [][]Val, want [][]string, e *Term) {
			bad := ""
			if len(got) != len(want) {
				bad = fmt.Sprintf("%d lines %s the transactions, expected %d", len(got), what, len(want))
			} else {
				for i := range want {
					if b := same(got[i], e.Op, want[i]); b != "" {
						bad = b
					} else if len(got[i]) > len(want[i]) {
						bad = "a line shows more than expected"
					}
				}
			}
			c.Check("summary", lab+" "+what, bad == "", where, "%s", bad)
		}
		if len(entries) == 0 {
			c.Check("summary", lab, len(above)+len(below) == 0, where, "values are shown for an empty list")
		} else {
			cmp("above", above, l.before, entries[0])
			cmp("below", below, l.after, entries[len(entries)-1])
		}
	} else {
		c.Check("rows", lab, len(above)+len(below) == 0, where, "values are shown outside of the table")
	}
}

var cFloat0 = &Const{constant.MakeInt64(0), types.Typ[types.Float64]}

// attrTerm is the term of the attribute at a dotted path of a symbol.
func attrTerm(e *Term, path string) *Term {
	for _, f := range strings.Split(path, ".") {
		t := e.T
		if p, ok := under(t).(*types.Pointer); ok {
			t = p.Elem()
			e = mk("*", t, e)
		}
		o, _, _ := types.LookupFieldOrMethod(t, true, nil, f)
		if o == nil {
			return e
		}
		e = mk("."+f, o.Type(), e)
	}
	return e
}

// ackText analyses the printed form of acknowledgements.
func (c *Ctx) ackText() {
	p := c.P
	for _, name := range []string{"Acknowledgement", "StatusAcknowledgement"} {
		n := p.TypeNamed("domain", name)
		if n == nil {
			c.Undecided("acknowledgement", name, "no such type")
			continue
		}
		fn := p.MethodOpt(n, "String")
		if fn == nil {
			c.Undecided("acknowledgement", name, "the type has no printed form")
			continue
		}
		where := p.Pos(fn.Pos())
		for k := 0; k < 3; k++ {
			lab := fmt.Sprintf("%s with %d parameters", name, k)
			st := p.NewState()
			in := NewInterp(p)
			in.ConvFork = false
			in.Hook = tabHook
			in.DeepN = 10
			in.CheckNil = true
			var ps []Part
			for i := 0; i < k; i++ {
				ps = append(ps, Part{V: sym(fmt.Sprintf("param%d", i), tString)})
			}
			v := symStruct(st, n, "a", func(path string, f *types.Var) Val {
				if strings.HasSuffix(path, ".Params") {
					return in.newSlice(st, f.Type(), ps)
				}
				return nil
			})
			done := 0
			for _, q := range in.Run(st, fn, v) {
				if q.Kind != "return" || len(q.Res) != 1 {
					c.Check("acknowledgement", lab, q.Kind == "stop", where, "printing ends with %s", q.Kind)
					continue
				}
				done++
				text := in.deep(q.St, q.Res[0])
				want := []string{"Type", "Code", "Text", "ReferencingMessage.MessageNumber", "ReferencingMessage.DialogID"}
				label := map[string]string{"Code": "code", "Text": "text", "ReferencingMessage.MessageNumber": "message", "ReferencingSegmentNumber": "segment", "ReferenceDataElement": "position"}
				if name == "StatusAcknowledgement" {
					want = append(want, "TransmittedAt")
				}
				if pos, known := q.St.truth(mk("<", tBool, cInt(0), sym("a.ReferencingSegmentNumber", tInt))); !known || pos {
					want = append(want, "ReferencingSegmentNumber")
				}
				if empty, known := q.St.truth(mk("==", tBool, sym("a.ReferenceDataElement", tString), cStr(""))); !known || !empty {
					want = append(want, "ReferenceDataElement")
				}
				seen := map[string]int{}
				before := map[string]string{}
				params := []string{}
				last := ""
				for _, v := range textParts(text) {
					if s, ok := asStr(v); ok {
						last = s
						continue
					}
					isParam := false
					walk(v, func(x Val) bool {
						if t, ok := x.(*Term); ok && len(t.A) == 0 && strings.HasPrefix(t.Op, "param") {
							params = append(params, t.Op)
							isParam = true
						}
						return true
					})
					if !isParam {
						path, _ := printedAs(v)
						path = strings.TrimPrefix(path, "a.")
						seen[path]++
						before[path] = last
					}
					last = ""
				}
				bad := ""
				for _, w := range want {
					if seen[w] == 0 {
						bad = w + " is not shown"
					}
					if l := label[w]; bad == "" && l != "" && !strings.Contains(strings.ToLower(before[w]), l) {
						bad = fmt.Sprintf("%s is introduced by %q", w, before[w])
					}
				}
				for i := 0; i < k; i++ {
					if len(params) != k || params[i] != fmt.Sprintf("param%d", i) {
						bad = fmt.Sprintf("shows the parameters %v", params)
					}
				}
				c.Check("acknowledgement", lab, bad == "", where, "%s", bad)
			}
			c.use(in)
			if done == 0 {
				c.Check("acknowledgement", lab, false, where, "no execution ends normally")
			}
		}
	}
}

// symStruct is a record whose attributes are symbols named by their path.
func symStruct(st *State, t types.Type, path string, set func(path string, f *types.Var) Val) Val {
	s := under(t).(*types.Struct)
	v := &Struct{T: t, F: make([]Val, s.NumFields())}
	for i := range v.F {
		f := s.Field(i)
		fp := path + "." + f.Name()
		if f.Embedded() {
			fp = path
		}
		if x := set(fp, f); x != nil {
			v.F[i] = x
		} else if _, ok := under(f.Type()).(*types.Struct); ok && !strings.HasSuffix(f.Type().String(), "time.Time") {
			v.F[i] = symStruct(st, f.Type(), fp, set)
		} else {
			v.F[i] = sym(fp, f.Type())
		}
	}
	return v
}
