package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P23"] = checkP23 }

// checkP23 decides that what is handed to the caller takes each attribute from
// the component of the bank's answer carrying it.
func checkP23(c *Ctx) {
	c.Rule("attributes", "with every component present, each attribute has the value of the component that carries it, and only that", 25)
	c.Rule("absent", "when a component is absent the attributes it carries are empty, and all others keep their values", 100)
	c.Rule("identity", "a value put into a composite is the value read from it, attribute by attribute", 8)
	m := &mapper{c: c}
	for _, fn := range m.producers() {
		m.producer(fn)
	}
	m.identities()
}

type mapper struct {
	c *Ctx
}

// sources names, for an attribute of a domain type, the components carrying it.
// A key can be narrowed to the composite the value is read from with "@". "="
// means the attribute's own attributes are components of the same composite, "/"
// starts at the component handing the value out, "-" leaves it unjudged.
var sources = map[string][]string{
	"AccountBalance.Account":           {"AccountConnection"},
	"AccountBalance.ProductName":       {"AccountProductName"},
	"AccountBalance.Currency":          {"AccountCurrency"},
	"AccountBalance.BookingDate":       {"BookingDate", "BookingTime"},
	"SepaAccountBalance.Account":       {"AccountConnection"},
	"SepaAccountBalance.ProductName":   {"AccountProductName"},
	"SepaAccountBalance.Currency":      {"AccountCurrency"},
	"SepaAccountBalance.BookingDate":   {"BookingDate", "BookingTime"},
	"Balance.Amount":                   {"="},
	"Amount.Amount@BalanceDataElement": {"Amount", "DebitCreditIndicator"},
	"AccountConnection.CountryCode@InternationalAccountConnectionDataElement": {"BankID.CountryCode"},
	"AccountConnection.BankID@InternationalAccountConnectionDataElement":      {"BankID.BankID"},
	"AccountInformation.Currency":                                             {"AccountCurrency"},
	"AccountInformation.ProductID":                                            {"AccountProductID"},
	"AccountInformation.Limit":                                                {"AccountLimit"},
	"BusinessTransaction.ID":                                                  {"BusinessTransactionID"},
	"BusinessTransaction.Limit":                                               {"="},
	"BankParameterData.Version":                                               {"BPDVersion"},
	"BankParameterData.MaxTransactionsPerMessage":                             {"BusinessTransactionCount"},
	"BankParameterData.MinTimeout":                                            {"MinTimeoutValue"},
	"BankParameterData.MaxTimeout":                                            {"MaxTimeoutValue"},
	"BankParameterData.PinTanBusinessTransactions":                            {"-"},
	"UserParameterData.Version":                                               {"UPDVersion"},
	"UserParameterData.Usage":                                                 {"UPDUsage"},
	"UserParameterData.Additions":                                             {"CommonExtensions"},
	"BankID.ID":                                                               {"BankID"},
	"KeyName.BankID":                                                          {"Bank"},
	"PublicKey.Type":                                                          {"Usage"},
	"Acknowledgement.Type":                                                    {"typ"},
	"Acknowledgement.ReferencingSegmentNumber":                                {"referencingSegmentPosition"},
	"Acknowledgement.Type@MessageAcknowledgement":                             {"-"},
	"Acknowledgement.Type@SegmentAcknowledgement":                             {"-"},
	"Acknowledgement.ReferencingMessage@MessageAcknowledgement":               {"/referencingMessage"},
	"Acknowledgement.ReferencingMessage@SegmentAcknowledgement":               {"/referencingMessage"},
	"StatusAcknowledgement.TransmittedAt":                                     {"Date", "Time"},
}

// carriers names the component a whole value is read from, where it is not the
// composite handing it out.
var carriers = map[string]string{
	"MessageHeaderSegment.ReferencingMessage": "Ref",
}

func isLower(s string) bool { return s != "" && s[0] >= 'a' && s[0] <= 'z' }

// component is a piece of the answer built for one run.
type component struct {
	name   string // path from the component handing the value out
	T      *types.Named
	v      Val
	absent bool
	leaf   bool
	fields []*component
	list   bool
	field  string
}

func (x *component) get(path string) *component {
	if path == "" {
		return x
	}
	head, rest, _ := strings.Cut(path, ".")
	for _, f := range x.fields {
		if strings.EqualFold(f.field, head) {
			return f.get(rest)
		}
	}
	return nil
}

// all lists a component and what it is made of.
func (x *component) all(f func(*component)) {
	f(x)
	for _, y := range x.fields {
		y.all(f)
	}
}

// producers are the methods handing out domain values made from components.
func (m *mapper) producers() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range m.c.P.AllFuncs() {
		rel := pkgRel(fn)
		n := recvNamed(fn)
		if rel != "element" && rel != "segment" || n == nil || len(fn.Params) != 1 || !fn.Object().Exported() || fn.Signature.Results().Len() == 0 {
			continue
		}
		if domainType(fn.Signature.Results().At(0).Type()) == nil || m.c.P.isVersionWrapper(n) || len(fn.Blocks) == 0 {
			continue
		}
		if m.generic(n) {
			m.c.note("%s.%s: the parameters of the segment have no fixed type; not judged", n.Obj().Name(), fn.Name())
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// generic: a segment whose content is kept as an interface.
func (m *mapper) generic(n *types.Named) bool {
	s, ok := under(n).(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if p, ok := f.Type().(*types.Pointer); ok && f.Embedded() {
			if e := namedOf(p); e != nil && e.Obj().Name() != "arrayElementGroup" && e.Obj().Name() != "basicDataElement" && elementType(f.Type()) == nil {
				return true
			}
		}
	}
	return false
}

// domainType is the struct of the domain package a value is made of.
func domainType(T types.Type) *types.Named {
	switch u := T.(type) {
	case *types.Pointer:
		return domainType(u.Elem())
	case *types.Slice:
		return domainType(u.Elem())
	case *types.Named:
		if _, ok := under(u).(*types.Struct); ok && u.Obj().Pkg() != nil && strings.HasSuffix(u.Obj().Pkg().Path(), "/domain") {
			return u
		}
	}
	return nil
}

func elementType(T types.Type) *types.Named {
	pt, ok := T.(*types.Pointer)
	if !ok {
		return nil
	}
	n, _ := pt.Elem().(*types.Named)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Name() != "element" {
		return nil
	}
	return n
}

// listed: the type of the entries of a list component.
func (m *mapper) listed(n *types.Named) *types.Named {
	s, ok := under(n).(*types.Struct)
	if !ok {
		return nil
	}
	isList := false
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() && namedOf(s.Field(i).Type()) != nil && namedOf(s.Field(i).Type()).Obj().Name() == "arrayElementGroup" {
			isList = true
		}
	}
	if !isList {
		return nil
	}
	for _, fn := range m.c.P.AllFuncs() {
		if recvNamed(fn) != n {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if ta, ok := i.(*ssa.TypeAssert); ok && elementType(ta.AssertedType) != nil {
					return elementType(ta.AssertedType)
				}
			}
		}
	}
	return m.c.P.TypeNamed("element", "AlphaNumericDataElement")
}

func isPrimitive(n *types.Named) bool {
	for n != nil {
		s, ok := under(n).(*types.Struct)
		if !ok || s.NumFields() == 0 || !s.Field(0).Embedded() {
			return false
		}
		n = namedOf(s.Field(0).Type())
		if n != nil && n.Obj().Name() == "basicDataElement" {
			return true
		}
	}
	return false
}

// build makes a pointer to a component. missing names what is absent.
func (m *mapper) build(st *State, n *types.Named, name, field string, missing func(string) bool, depth int) *component {
	x := &component{name: name, T: n, field: field}
	pt := types.NewPointer(n)
	if name != "" && missing(name) {
		x.absent = true
		x.v = &Nil{pt}
	}
	if isPrimitive(n) || depth > 5 {
		x.leaf = true
		if !x.absent {
			t := sym("answer:"+name, pt)
			nonNilTerm(st, t)
			x.v = t
		}
		return x
	}
	s, ok := under(n).(*types.Struct)
	if !ok {
		x.leaf = true
		return x
	}
	gone := func(nm string) bool { return x.absent || missing(nm) }
	sub := func(f string) string {
		if name == "" {
			return f
		}
		return name + "." + f
	}
	v := &Struct{T: n, F: make([]Val, s.NumFields())}
	entries := func(e *types.Named, f string, T types.Type, iface bool) Val {
		var ps []Part
		l := &component{name: sub(f), T: e, field: f, list: true, absent: x.absent}
		for k := 0; k < 2; k++ {
			y := m.build(st, e, sub(fmt.Sprintf("%s%d", f, k)), fmt.Sprint(k), gone, depth+1)
			if y.absent && !x.absent { // an entry of a list is always there
				y = m.build(st, e, sub(fmt.Sprintf("%s%d", f, k)), fmt.Sprint(k), func(q string) bool { return q != sub(fmt.Sprintf("%s%d", f, k)) && gone(q) }, depth+1)
			}
			l.fields = append(l.fields, y)
			if iface {
				ps = append(ps, Part{V: &Iface{types.NewPointer(e), y.v}})
			} else {
				ps = append(ps, Part{V: y.v})
			}
		}
		x.fields = append(x.fields, l)
		in := NewInterp(m.c.P)
		return in.newSlice(st, T, ps)
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if e := elementType(f.Type()); e != nil && !f.Embedded() {
			y := m.build(st, e, sub(f.Name()), f.Name(), gone, depth+1)
			x.fields = append(x.fields, y)
			v.F[i] = y.v
			continue
		}
		if sl, ok := under(f.Type()).(*types.Slice); ok {
			if e := elementType(sl.Elem()); e != nil {
				v.F[i] = entries(e, f.Name(), f.Type(), false)
				continue
			}
		}
		if p := namedOf(f.Type()); f.Embedded() && p != nil && p.Obj().Name() == "arrayElementGroup" {
			ag := under(p).(*types.Struct)
			g := &Struct{T: p, F: make([]Val, ag.NumFields())}
			for j := range g.F {
				if ag.Field(j).Name() == "array" {
					g.F[j] = entries(m.listed(n), "entry", ag.Field(j).Type(), true)
				} else {
					g.F[j] = zero(ag.Field(j).Type())
				}
			}
			v.F[i] = &Ptr{Obj: st.alloc(g)}
			continue
		}
		if types.IsInterface(f.Type()) || isNillable(f.Type()) {
			v.F[i] = nonNilTerm(st, sym("answer:"+sub(f.Name()), f.Type()))
			continue
		}
		t := sym("answer:"+sub(f.Name()), f.Type())
		v.F[i] = t
		x.fields = append(x.fields, &component{name: sub(f.Name()), v: t, leaf: true, field: f.Name(), absent: x.absent})
	}
	if !x.absent {
		x.v = &Ptr{Obj: st.alloc(v)}
	}
	return x
}

// leafHook reads a primitive component.
func leafHook(k *Call) ([]Outcome, bool) {
	if k.Callee == nil && k.Method == nil || k.Sig == nil || k.Sig.Results().Len() != 1 {
		return nil, false
	}
	var recv Val
	name := ""
	switch {
	case k.Callee != nil && pkgRel(k.Callee) == "element" && len(k.Args) == 1:
		recv, name = k.St.resolve(k.Args[0]), k.Callee.Name()
	default:
		return nil, false
	}
	t, ok := recv.(*Term)
	if !ok || name != "Val" && name != "Value" || !strings.HasPrefix(t.Op, "answer:") && fieldOfAnswer(t) == "" {
		return nil, false
	}
	return []Outcome{{Res: mk("val", k.Sig.Results().At(0).Type(), t)}}, true
}

func fieldOfAnswer(t *Term) string {
	if len(t.A) == 1 {
		if b, ok := t.A[0].(*Term); ok {
			return fieldOfAnswer(b)
		}
	}
	if strings.HasPrefix(t.Op, "answer:") {
		return t.Op
	}
	return ""
}

func (m *mapper) interp() *Interp {
	in := NewInterp(m.c.P)
	in.ConvFork = false
	in.MaxFork = 1
	in.DeepN = 8
	in.Hook = leafHook
	return in
}

func (m *mapper) producer(fn *ssa.Function) {
	c := m.c
	n := recvNamed(fn)
	name := n.Obj().Name() + "." + fn.Name()
	// what is the answer made of?
	st := c.P.NewState()
	whole := m.build(st, n, "", "", func(string) bool { return false }, 0)
	var parts []string
	whole.all(func(x *component) {
		if x.name != "" && x.T != nil && !x.list && (len(x.field) > 1 || x.leaf) && x.field != "0" && x.field != "1" {
			parts = append(parts, x.name)
		}
	})
	m.run(fn, name, "attributes", "all present", func(string) bool { return false })
	if len(parts) == 0 {
		return
	}
	m.run(fn, name, "absent", "nothing present", func(string) bool { return true })
	for _, p := range parts {
		p := p
		m.run(fn, name, "absent", "without "+p, func(q string) bool { return q == p })
		m.run(fn, name, "absent", "only "+p, func(q string) bool { return q != p && !strings.HasPrefix(p, q+".") && !strings.HasPrefix(q, p+".") })
	}
}

type comparison struct {
	m    *mapper
	in   *Interp
	p    Path
	root *component
	bad  []string
	und  []string
	n    int
}

func (m *mapper) run(fn *ssa.Function, name, rule, lab string, missing func(string) bool) {
	c := m.c
	st := c.P.NewState()
	st.frames = nil
	root := m.build(st, recvNamed(fn), "", "", missing, 0)
	recv := root.v
	if _, isP := fn.Signature.Recv().Type().(*types.Pointer); !isP {
		recv = st.get(root.v.(*Ptr).Obj)
	}
	in := m.interp()
	ps := in.Run(st, fn, recv)
	c.use(in)
	construct := name + ", " + lab
	good := 0
	for _, p := range ps {
		switch {
		case p.Kind == "trunc":
			c.Undecided(rule, construct, "not followed to its end")
			continue
		case p.Kind != "return":
			c.Check(rule, construct, false, p.Where, "no value is handed out: %s", p.Kind)
			continue
		}
		if len(p.Res) > 1 && p.failed() {
			continue
		}
		good++
		x := &comparison{m: m, in: in, p: p, root: root}
		T := fn.Signature.Results().At(0).Type()
		from := root
		if w, has := carriers[root.T.Obj().Name()+"."+fn.Name()]; has {
			if from = root.get(w); from == nil {
				c.Undecided(rule, construct, "no component "+w)
				continue
			}
		}
		x.value(T, p.Res[0], from, fn.Signature.Results().At(0).Type().String(), true)
		for _, u := range x.und {
			c.Undecided(rule, construct, u)
		}
		if len(x.bad) == 0 && len(x.und) == 0 {
			c.Check(rule, construct, true, c.P.Pos(fn.Pos()), "%d attributes", x.n)
		}
		for _, b := range x.bad {
			c.Check(rule, construct, false, c.P.Pos(fn.Pos()), "%s", b)
		}
	}
	if good == 0 && fn.Signature.Results().Len() == 1 {
		c.Check(rule, construct, false, c.P.Pos(fn.Pos()), "no value is handed out")
	}
}

func (x *comparison) fail(f string, args ...any) { x.bad = append(x.bad, fmt.Sprintf(f, args...)) }

func shortType(T string) string {
	if i := strings.LastIndex(T, "."); i >= 0 {
		return T[i+1:]
	}
	return T
}

// value compares a domain value with the component it comes from.
func (x *comparison) value(T types.Type, v Val, from *component, attr string, top bool) {
	st := x.p.St
	attr = shortType(attr)
	v = st.resolve(v)
	switch u := T.(type) {
	case *types.Pointer:
		if isNil(v) {
			if from != nil && !from.absent && !top {
				x.fail("%s is missing although %s is present", attr, from.name)
			}
			return
		}
		p, ok := v.(*Ptr)
		if !ok {
			x.und = append(x.und, attr+" has an unrecognised form: "+shortKey(v.Key()))
			return
		}
		if from != nil && from.absent {
			x.fail("%s is set although %s is absent", attr, from.name)
			return
		}
		cur, _ := getPath(st.get(p.Obj), p.Path)
		x.value(u.Elem(), cur, from, attr, top)
		return
	case *types.Slice:
		if domainType(u.Elem()) == nil {
			break
		}
		var list *component
		if from != nil {
			if from.list {
				list = from
			}
			for _, f := range from.fields {
				if f.list && list == nil {
					list = f
				}
				if list == nil {
					for _, g := range f.fields {
						if g.list {
							list = g
						}
						for _, h := range g.fields {
							if h.list {
								list = h
							}
						}
					}
				}
			}
		}
		if list == nil || list.absent {
			ps, ok := x.in.parts(st, v)
			if !isNil(v) && (!ok || len(ps) > 0) {
				x.fail("%s is not empty although nothing carries it", attr)
			}
			return
		}
		ps, ok := x.in.parts(st, v)
		if !ok {
			x.und = append(x.und, attr+" has an unrecognised form: "+shortKey(v.Key()))
			return
		}
		if len(ps) != len(list.fields) {
			x.fail("%s has %d entries, the answer lists %d", attr, len(ps), len(list.fields))
			return
		}
		for i, p := range ps {
			if p.Spread {
				x.und = append(x.und, attr+" has an unrecognised form")
				return
			}
			x.value(u.Elem(), p.V, list.fields[i], fmt.Sprintf("%s%d", attr, i), false)
		}
		return
	}
	n := namedOf(T)
	if n != nil && domainType(T) == n {
		s := under(n).(*types.Struct)
		sv, ok := expand(v).(*Struct)
		if !ok {
			x.und = append(x.und, attr+" has an unrecognised form: "+shortKey(v.Key()))
			return
		}
		if from != nil && from.leaf && !from.absent {
			// a value kept whole
			if k := x.in.deep(st, v).Key(); k != x.in.deep(st, expand(from.v)).Key() && k != x.in.deep(st, from.v).Key() {
				x.fail("%s is %s, the answer says %s", attr, shortKey(k), from.name)
			}
			return
		}
		for i, f := range sv.F {
			x.attribute(n, s.Field(i), f, from, attr+"."+s.Field(i).Name())
		}
		return
	}
	x.plain(v, []*component{from}, attr)
}

// attribute compares one attribute of a domain value read from a component.
func (x *comparison) attribute(n *types.Named, f *types.Var, v Val, from *component, attr string) {
	key := n.Obj().Name() + "." + f.Name()
	var src []string
	comp := ""
	if from != nil && from.T != nil {
		comp = from.T.Obj().Name()
	}
	var ok bool
	for _, k := range []string{key + "@" + x.root.T.Obj().Name(), key + "@" + comp, key} {
		if src, ok = sources[k]; ok {
			break
		}
	}
	if !ok {
		src = []string{f.Name()}
		if f.Embedded() && from != nil && from.get(f.Name()) == nil {
			src = []string{"="}
		}
	}
	var cs []*component
	for _, s := range src {
		switch {
		case s == "-":
			x.kind(v, attr)
			return
		case s == "=":
			if _, isP := f.Type().(*types.Pointer); isP {
				// made when the first of its attributes is there
				k := domainType(f.Type())
				first := under(k).(*types.Struct).Field(0).Name()
				g := from
				if from != nil && from.get(first) != nil {
					g = from.get(first)
				}
				if isNil(x.p.St.resolve(v)) {
					if g != nil && !g.absent {
						x.fail("%s is missing although %s is present", attr, g.name)
					}
					return
				}
			}
			y := from
			if y != nil && !y.absent {
				z := *y
				y = &z
			}
			x.value(f.Type(), v, y, attr, false)
			return
		case strings.HasPrefix(s, "/"):
			cs = append(cs, x.root.get(s[1:]))
		case from != nil:
			cs = append(cs, from.get(s))
		default:
			cs = append(cs, nil)
		}
	}
	// a status names the message the acknowledgement refers to
	if x.root.T.Obj().Name() != "AcknowledgementDataElement" && n.Obj().Name() == "Acknowledgement" {
		switch f.Name() {
		case "Type":
			x.kind(v, attr)
			return
		case "ReferencingMessage", "ReferencingSegmentNumber":
			o := map[string]string{"ReferencingMessage": "ReferencingMessage", "ReferencingSegmentNumber": "ReferencingSegment"}[f.Name()]
			if y, rm := x.root.get(o), x.root.get("ReferencingMessage"); y != nil && rm != nil && rm.T != nil {
				if rm.absent {
					return
				}
				cs = []*component{y}
			}
		}
	}
	if len(cs) == 1 {
		y := cs[0]
		if domainType(f.Type()) != nil {
			x.value(f.Type(), v, y, attr, false)
			return
		}
	}
	x.plain(v, cs, attr)
}

// kind judges whether an acknowledgement is said to be about a message or about
// a segment: by the segment that carries it, in a status by what it refers to.
func (x *comparison) kind(v Val, attr string) {
	if !strings.HasSuffix(attr, ".Type") {
		return
	}
	want := ""
	switch n := x.root.T.Obj().Name(); {
	case n == "MessageAcknowledgement", n == "SegmentAcknowledgement":
		want = n
	default:
		a, b := x.root.get("ReferencingMessage"), x.root.get("ReferencingSegment")
		switch {
		case a == nil || b == nil || a.absent != b.absent:
			return
		case a.absent:
			want = "MessageAcknowledgement"
		default:
			want = "SegmentAcknowledgement"
		}
	}
	pkg := x.m.c.P.Pkg("domain")
	if pkg == nil {
		return
	}
	k, ok := pkg.Pkg.Scope().Lookup(want).(*types.Const)
	if !ok {
		return
	}
	x.n++
	is := func(name string) bool {
		s, ok := asStr(x.in.deep(x.p.St, v))
		o, isC := pkg.Pkg.Scope().Lookup(name).(*types.Const)
		return ok && isC && s == constant.StringVal(o.Val())
	}
	if is(want) {
		return
	}
	if is("MessageAcknowledgement") || is("SegmentAcknowledgement") || emptyVal(x.in.deep(x.p.St, v)) || len(answers(x.in.deep(x.p.St, v))) > 0 {
		x.fail("%s is %s where it is %s", attr, shortKey(v.Key()), k.Val())
	}
}

// plain compares an attribute that is no structure of its own.
func (x *comparison) plain(v Val, cs []*component, attr string) {
	st := x.p.St
	x.n++
	v = st.resolve(v)
	if p, ok := v.(*Ptr); ok {
		cur, _ := getPath(st.get(p.Obj), p.Path)
		if cur != nil {
			v = st.resolve(cur)
		}
	}
	main := cs[0]
	if main != nil && (main.list || !main.leaf) {
		x.list(v, main, attr)
		return
	}
	d := x.in.deep(st, v)
	have := answers(d)
	if main == nil || main.absent {
		if len(have) > 0 {
			x.fail("%s is taken from %s, which does not carry it", attr, strings.Join(have, ", "))
		} else if !emptyVal(d) {
			x.fail("%s is %s although nothing in the answer carries it", attr, shortKey(d.Key()))
		}
		return
	}
	want := x.in.deep(st, mk("val", valType(v), main.v))
	bare := x.in.deep(st, main.v)
	if len(cs) == 1 {
		if k := stripVal(d).Key(); k != stripVal(want).Key() && k != bare.Key() {
			if len(have) == 1 && have[0] == main.name {
				if t, ok := stripVal(d).(*Term); ok && (t.Op == "neg" || t.Op == "-" || strings.HasPrefix(t.Op, "call:")) {
					x.fail("%s is %s, the answer says %s", attr, shortKey(d.Key()), main.name)
					return
				}
				x.und = append(x.und, attr+" is computed from "+main.name+": "+shortKey(d.Key()))
				return
			}
			x.fail("%s is %s, the answer says %s", attr, shortKey(d.Key()), main.name)
		}
		return
	}
	other := cs[1]
	if strings.HasSuffix(other.name, "DebitCreditIndicator") {
		may := func(mark string) bool {
			if other.absent {
				return false // the mark is mandatory
			}
			s := st.clone()
			return s.assume(mk("==", tBool, mk("val", tString, other.v), cStr(mark)), true)
		}
		debit, credit := may("D"), may("C")
		unknown := ""
		st.conds(func(t *Term, b bool) {
			walk(t, func(y Val) bool {
				z, ok := y.(*Term)
				if !ok {
					return true
				}
				if z.Op == "val" || strings.HasPrefix(z.Op, "answer:") {
					return false
				}
				switch z.Op {
				case "==", "!", "not", "&&", "||", "conv":
				default:
					if mentionsOp(z, "answer:"+other.name) {
						unknown = z.Key()
					}
				}
				return true
			})
		})
		if unknown != "" {
			x.und = append(x.und, attr+" depends on a form of the mark not recognised: "+shortKey(unknown))
			return
		}
		k := stripVal(d)
		w := stripVal(want)
		isNeg := false
		if t, ok := k.(*Term); ok {
			isNumber := func(v Val, keys ...string) bool {
				for _, y := range keys {
					if stripConv(v).Key() == y {
						return true
					}
				}
				return false
			}
			switch {
			case (t.Op == "neg" || t.Op == "-") && len(t.A) == 1:
				isNeg, k = true, stripVal(t.A[0])
			case t.Op == "*" && len(t.A) == 2 && isNumber(t.A[1], "-1"):
				isNeg, k = true, stripVal(t.A[0])
			case t.Op == "*" && len(t.A) == 2 && isNumber(t.A[0], "-1"):
				isNeg, k = true, stripVal(t.A[1])
			case t.Op == "-" && len(t.A) == 2 && isNumber(t.A[0], "0", "-0"):
				isNeg, k = true, stripVal(t.A[1])
			}
		}
		switch {
		case k.Key() != w.Key():
			x.fail("%s is %s, the answer says %s", attr, shortKey(d.Key()), main.name)
		case credit && isNeg:
			x.fail("%s is negated although the mark may be C", attr)
		case debit && !isNeg:
			x.fail("%s is not negated although the mark may be D", attr)
		}
		return
	}
	// a day and a time of day
	for _, h := range have {
		if h != main.name && h != other.name {
			x.fail("%s is taken from %s, which does not carry it", attr, h)
			return
		}
	}
	for _, e := range []string{"2026-01-10 08:09:10", "2024-02-29 23:59:58", "1999-12-31 00:00:01"} {
		day, clock, _ := strings.Cut(e, " ")
		env := map[string]string{stripVal(want).Key(): day + " 00:00:00", "LEAF:" + main.v.Key(): day + " 00:00:00"}
		if !other.absent {
			env["LEAF:"+other.v.Key()] = "0000-01-01 " + clock
		}
		r, ok := evalDate(wholeTerm(d), env)
		t, isT := r.(time.Time)
		if !ok || !isT {
			x.und = append(x.und, attr+" is computed in a form not recognised: "+shortKey(d.Key()))
			return
		}
		exp := day + " 00:00:00"
		if !other.absent {
			exp = day + " " + clock
		}
		if got := t.Format("2006-01-02 15:04:05"); got != exp {
			x.fail("%s is %s for %s on %s", attr, got, clock, day)
			return
		}
	}
}

// list compares an attribute holding several plain values.
func (x *comparison) list(v Val, from *component, attr string) {
	st := x.p.St
	l := from
	if !from.list {
		l = nil
		for _, f := range from.fields {
			if f.list {
				l = f
			}
		}
	}
	ps, ok := x.in.parts(st, v)
	switch {
	case isNil(v) || ok && len(ps) == 0:
		if l != nil && !l.absent {
			x.fail("%s is empty although the answer lists entries", attr)
		}
	case l == nil || l.absent:
		x.fail("%s is not empty although nothing in the answer carries it", attr)
	case !ok:
		x.und = append(x.und, attr+" has an unrecognised form: "+shortKey(v.Key()))
	case len(ps) != len(l.fields):
		x.fail("%s has %d entries, the answer lists %d", attr, len(ps), len(l.fields))
	default:
		for i, p := range ps {
			x.plain(p.V, []*component{l.fields[i]}, fmt.Sprintf("%s %d", attr, i+1))
		}
	}
}

// answers lists the components a value is made of.
func answers(v Val) []string {
	m := map[string]bool{}
	walk(v, func(y Val) bool {
		if t, ok := y.(*Term); ok && strings.HasPrefix(t.Op, "answer:") {
			m[strings.TrimPrefix(t.Op, "answer:")] = true
		}
		return true
	})
	return keys(m)
}

// stripVal removes what reading a component adds.
func stripVal(v Val) Val {
	for {
		v = stripConv(v)
		switch t := v.(type) {
		case *Iface:
			v = t.V
			continue
		case *Term:
			if (t.Op == "val" || strings.HasPrefix(t.Op, "as:") || strings.HasPrefix(t.Op, "assert")) && len(t.A) >= 1 {
				v = t.A[0]
				continue
			}
		}
		return v
	}
}

func emptyVal(v Val) bool {
	switch t := v.(type) {
	case *Nil:
		return true
	case *Const:
		if s, ok := asStr(t); ok {
			return s == ""
		}
		if n, ok := asInt(t); ok {
			return n == 0
		}
		if b, ok := asBool(t); ok {
			return !b
		}
		return t.Key() == "0" || t.Key() == "0.0"
	case *Struct:
		for _, f := range t.F {
			if f != nil && !emptyVal(f) {
				return false
			}
		}
		return true
	case *Seq:
		return len(t.P) == 0
	case *Term:
		if t.Op == "zero" {
			return true
		}
		if t.Op == "cat" && len(t.A) == 0 {
			return true
		}
		if t.Op == "conv" || t.Op == "&" {
			return emptyVal(t.A[0])
		}
	}
	return false
}

// identities: a constructor taking a domain value and the reading of it.
func (m *mapper) identities() {
	c := m.c
	for _, mk := range c.P.constructors("element") {
		n := resultNamed(mk)
		if n == nil || len(mk.Params) != 1 || domainType(mk.Params[0].Type()) == nil {
			continue
		}
		for _, rd := range m.producers() {
			if recvNamed(rd) != n || rd.Signature.Results().Len() != 1 || !types.Identical(rd.Signature.Results().At(0).Type(), mk.Params[0].Type()) {
				continue
			}
			m.identity(mk, rd)
		}
	}
}

func (m *mapper) identity(mk, rd *ssa.Function) {
	c := m.c
	name := mk.Name() + " and " + rd.Name()
	st := c.P.NewState()
	st.frames = nil
	T := mk.Params[0].Type()
	in := NewInterp(c.P)
	in.ConvFork = false
	in.MaxFork = 2
	in.DeepN = 8
	in.Hook = func(k *Call) ([]Outcome, bool) {
		if k.Name == "reflect.DeepEqual" {
			t := sym("as required", tBool)
			return []Outcome{{Res: cBool(true), Do: func(s *State) bool { return s.assume(t, true) }}}, true
		}
		return nil, false
	}
	var arg Val
	if sl, ok := under(T).(*types.Slice); ok {
		var ps []Part
		for i := 0; i < 2; i++ {
			ps = append(ps, Part{V: sym(fmt.Sprintf("given:%d", i), sl.Elem())})
		}
		arg = in.newSlice(st, T, ps)
	} else {
		t := sym("given", T)
		if isNillable(T) {
			nonNilTerm(st, t)
		}
		arg = t
	}
	done := 0
	for _, p := range in.Run(st, mk, arg) {
		if p.Kind != "return" {
			continue
		}
		s := p.St.clone()
		s.frames = nil
		for _, q := range in.Run(s, rd, p.Res[0]) {
			if q.Kind != "return" {
				if q.Kind != "trunc" {
					c.Check("identity", name, false, q.Where, "reading it ends in %s", q.Kind)
				}
				continue
			}
			done++
			bad := m.same(in, q.St, arg, q.Res[0], T, "")
			c.Check("identity", name, bad == "", c.P.Pos(rd.Pos()), "%s", bad)
		}
	}
	c.use(in)
	if done == 0 {
		c.Undecided("identity", name, "could not be evaluated")
	}
}

// same compares two values of a type attribute by attribute.
func (m *mapper) same(in *Interp, st *State, a, b Val, T types.Type, at string) string {
	a, b = st.resolve(a), st.resolve(b)
	switch u := T.(type) {
	case *types.Pointer:
		if domainType(u.Elem()) == nil {
			break
		}
		an, ak := st.truth(mk("==", tBool, a, &Nil{T}))
		if isNil(a) {
			an, ak = true, true
		}
		if isNil(b) {
			if ak && an {
				return ""
			}
			return at + " is lost"
		}
		if ak && an {
			return at + " appears from nowhere"
		}
		deref := func(v Val) Val {
			if p, ok := v.(*Ptr); ok {
				cur, _ := getPath(st.get(p.Obj), p.Path)
				return cur
			}
			return mk("*", u.Elem(), v)
		}
		return m.same(in, st, deref(a), deref(b), u.Elem(), at)
	case *types.Slice:
		if domainType(u.Elem()) == nil {
			break
		}
		ps, ok := in.parts(st, a)
		qs, ok2 := in.parts(st, b)
		if !ok || !ok2 || len(ps) != len(qs) {
			return at + " has another number of entries"
		}
		for i := range ps {
			if w := m.same(in, st, ps[i].V, qs[i].V, u.Elem(), fmt.Sprintf("%s[%d]", at, i)); w != "" {
				return w
			}
		}
		return ""
	}
	if n := domainType(T); n != nil {
		s := under(n).(*types.Struct)
		x, ok := expand(a).(*Struct)
		y, ok2 := expand(b).(*Struct)
		if !ok || !ok2 {
			return at + " is not recognised"
		}
		for i := range x.F {
			f := s.Field(i)
			if src := sources[n.Obj().Name()+"."+f.Name()]; !f.Exported() || len(src) == 1 && isLower(src[0]) || n.Obj().Name() == "Acknowledgement" && f.Name() == "ReferencingMessage" {
				continue // not part of what is written
			}
			if w := m.same(in, st, x.F[i], y.F[i], f.Type(), at+"."+f.Name()); w != "" {
				return w
			}
		}
		return ""
	}
	k, l := stripVal(in.deep(st, a)).Key(), stripVal(in.deep(st, b)).Key()
	if k == l {
		return ""
	}
	if _, isS := under(T).(*types.Slice); isS {
		// lists of plain values: entry by entry
		ps, ok := in.parts(st, a)
		qs, ok2 := in.parts(st, b)
		if ok && ok2 && len(ps) == len(qs) && !(len(ps) == 1 && ps[0].Spread) {
			for i := range ps {
				if stripVal(in.deep(st, ps[i].V)).Key() != stripVal(in.deep(st, qs[i].V)).Key() {
					return fmt.Sprintf("%s[%d] is %s", at, i, shortKey(qs[i].V.Key()))
				}
			}
			return ""
		}
		if ok2 && (!ok || len(ps) == 1 && ps[0].Spread) {
			// the entries of a given list, taken one by one
			whole := true
			for i := range qs {
				t, isT := stripVal(in.deep(st, qs[i].V)).(*Term)
				whole = whole && !qs[i].Spread && isT && t.Op == "idx" && len(t.A) == 2 && stripVal(t.A[0]).Key() == k && t.A[1].Key() == cInt(int64(i)).Key()
			}
			if eq, known := st.truth(mk("==", tBool, mk("len", tInt, a), cInt(int64(len(qs))))); whole && known && eq {
				return ""
			}
		}
		if n, known := st.truth(mk("==", tBool, mk("len", tInt, a), cInt(0))); known && n && isNil(b) || ok2 && len(qs) == 0 && known && n {
			return ""
		}
	}
	return fmt.Sprintf("%s: given %s, read %s", at, shortKey(k), shortKey(l))
}
