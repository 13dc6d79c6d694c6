package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// constText is a constant text of the module.
type constText struct {
	Value constant.Value
	Pos   token.Pos
}

// constants lists the constant expressions of the module (outermost ones).
func (p *Prog) constants() (out []constText) {
	for _, pk := range p.Pkgs {
		for _, f := range pk.Syntax {
			if strings.HasSuffix(p.Fset.Position(f.Pos()).Filename, "_test.go") {
				continue
			}
			ast.Inspect(f, func(n ast.Node) bool {
				e, ok := n.(ast.Expr)
				if !ok {
					return true
				}
				tv, ok := pk.TypesInfo.Types[e]
				if !ok || tv.Value == nil {
					return true
				}
				out = append(out, constText{tv.Value, e.Pos()})
				return false
			})
		}
	}
	return
}

// dirEntry is an entry of a table written as a composite literal.
type dirEntry struct {
	text map[string]string
	pos  token.Pos
}

// directory reads the package level table of bankinfo whose elements are of
// the given type.
func (c *Ctx) directory(elem *types.Named) (out []dirEntry) {
	pk := c.P.ByPath[modPath+"/bankinfo"]
	for _, f := range pk.Syntax {
		for _, dcl := range f.Decls {
			g, ok := dcl.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, v := range s.(*ast.ValueSpec).Values {
					lit, ok := v.(*ast.CompositeLit)
					if !ok {
						continue
					}
					if s, ok := under(pk.TypesInfo.TypeOf(lit)).(*types.Slice); !ok || s.Elem() != types.Type(elem) {
						continue
					}
					for _, e := range lit.Elts {
						el, ok := e.(*ast.CompositeLit)
						if !ok {
							c.Undecided("data", "directory", "an entry of the directory is not written as a literal")
							continue
						}
						d := dirEntry{map[string]string{}, el.Pos()}
						for i, fe := range el.Elts {
							name, val := "", fe
							if kv, ok := fe.(*ast.KeyValueExpr); ok {
								name, val = kv.Key.(*ast.Ident).Name, kv.Value
							} else {
								name = under(elem).(*types.Struct).Field(i).Name()
							}
							if tv := pk.TypesInfo.Types[val]; tv.Value != nil && tv.Value.Kind() == constant.String {
								d.text[name] = constant.StringVal(tv.Value)
							} else {
								c.Undecided("data", "directory", "a field of an entry is not a constant")
							}
						}
						out = append(out, d)
					}
				}
			}
		}
	}
	return
}

func init() { checks["P25"] = checkP25 }

// the columns of the published bank directory file
var columns = map[string]string{
	"BankID": "BLZ", "BIC": "BIC", "VersionNumber": "HBCI-Version", "URL": "PIN/TAN-Zugang URL",
	"VersionName": "Version", "Institute": "Institut", "City": "Ort", "LastChanged": "Datum letzte Änderung",
}

var bicColumns = map[string]string{"BankID": "Bank-leitzahl", "BIC": "BIC"}

var versionText = regexp.MustCompile(`([0-9])\.([0-9])`)

// versionIn is the protocol version a text speaks of.
func versionIn(s string) (int, bool) {
	m := versionText.FindStringSubmatch(s)
	if m == nil {
		return -1, s == ""
	}
	return int(m[1][0]-'0')*100 + int(m[2][0]-'0')*10, true
}

func checkP25(c *Ctx) {
	c.Rule("lookup", "the lookup by bank id returns, as a whole, an entry whose id equals the one asked for, and the empty value exactly if no entry has that id", 2)
	c.Rule("version", "every pair of version texts in the directory is understood, and mapped to the highest version the texts speak of", 3)
	c.Rule("mapping", "every text the version mapping accepts is mapped to the version it speaks of", 4)
	c.Rule("supported", "a version number leads to the protocol version with that number", 2)
	c.Rule("columns", "the importer of the directory takes every attribute from its own column, makes one entry of every record that has a bank id, and reports what it cannot read", 2)
	c.Rule("generated", "the generator of the directory writes every attribute into the attribute of the same name, quoted", 1)
	c.Rule("data", "every entry of the directory has a bank id and keeps to constants", 1)
	p := c.P
	bi := p.TypeNamed("bankinfo", "BankInfo")

	x := &dirCheck{c: c, p: p, bi: bi}
	x.lookup()
	x.versions()
	x.importer("ParseBankInfos", bi, columns)
	x.importer("ParseBicData", p.TypeNamed("bankinfo", "BicInfo"), bicColumns)
	x.template()
}

type dirCheck struct {
	c  *Ctx
	p  *Prog
	bi *types.Named
}

// table finds the variable that holds the directory.
func (x *dirCheck) table() *ssa.Global {
	for _, m := range x.p.Pkg("bankinfo").Members {
		if g, ok := m.(*ssa.Global); ok {
			if s, ok := under(under(g.Type()).(*types.Pointer).Elem()).(*types.Slice); ok && s.Elem() == types.Type(x.bi) {
				return g
			}
		}
	}
	return nil
}

func (x *dirCheck) lookup() {
	c, p := x.c, x.p
	fn := p.Func("bankinfo", "FindByBankID")
	g := x.table()
	if g == nil {
		c.Undecided("lookup", "FindByBankID", "the directory is no package level table")
		return
	}
	fields := structFields(x.bi)
	idx := -1
	for i, f := range fields {
		if f.Name() == "BankID" {
			idx = i
		}
	}
	// an index or a search is followed with given ids, anything else with any ids
	type query struct {
		lab   string
		ids   []Val
		asked Val
	}
	var qs []query
	if x.indexed(fn) {
		ids := []Val{cStr("10000000"), cStr("20000000"), cStr("20000000"), cStr("30000000")}
		for _, a := range []string{"10000000", "20000000", "30000000", "", "1", "05000000", "15000000", "25000000", "35000000", "100000000", "2000000"} {
			qs = append(qs, query{"FindByBankID, asked for " + orElse(a, "nothing"), ids, cStr(a)})
		}
	} else {
		a := sym("asked", fn.Params[0].Type())
		e := func(n int) (l []Val) {
			for i := 0; i < n; i++ {
				l = append(l, sym("e"+string(rune('0'+i))+".BankID", tString))
			}
			return
		}
		qs = []query{{"FindByBankID, directory of one entry", e(1), a}, {"FindByBankID, directory of three entries", e(3), a}}
	}
	found, none := 0, 0
	for _, qu := range qs {
		st := p.NewState()
		var es []Val
		for i := range qu.ids {
			s := &Struct{T: x.bi}
			for j, f := range fields {
				if j == idx {
					s.F = append(s.F, qu.ids[i])
				} else {
					s.F = append(s.F, sym("e"+string(rune('0'+i))+"."+f.Name(), f.Type()))
				}
			}
			es = append(es, s)
		}
		in := NewInterp(p)
		in.MaxFork = 4
		in.MaxVisit = 12
		st.syms[mk("global:"+g.String(), g.Type()).Key()] = st.alloc(in.newSlice(st, types.NewSlice(x.bi), partsOf(es)))
		st = x.derived(in, st, g)
		bad := ""
		for _, q := range in.Run(st, fn, qu.asked) {
			if q.Kind != "return" {
				bad = "a lookup does not return: " + q.Where
				continue
			}
			r, ok := expand(q.St.resolve(q.Res[0])).(*Struct)
			if !ok || len(r.F) != len(fields) {
				bad = "the result is not an entry"
				continue
			}
			same := func(i int) (bool, bool) {
				if k1, ok := asStr(qu.ids[i]); ok {
					k2, _ := asStr(qu.asked)
					return k1 == k2, true
				}
				return q.St.truth(mk("==", tBool, qu.ids[i], qu.asked))
			}
			src := ""
			for i, f := range fields {
				v := q.St.resolve(r.F[i])
				from := v.Key()
				if i == idx {
					continue
				}
				if s, ok := asStr(v); ok && s == "" {
					from = "zero"
				} else if t, ok := v.(*Term); ok && strings.HasSuffix(t.Op, "."+f.Name()) && len(t.A) == 0 {
					from = strings.TrimSuffix(t.Op, "."+f.Name())
				}
				if src != "" && from != src {
					bad = "the result mixes entries: " + f.Name() + " from " + from + ", others from " + src
				}
				src = from
			}
			id := q.St.resolve(r.F[idx])
			if src == "zero" {
				none++
				for i := range es {
					if eq, known := same(i); !known || eq {
						bad = "nothing is found although an entry has the id"
					}
				}
				if s, ok := asStr(id); !ok || s != "" {
					bad = "the empty result has an id"
				}
				continue
			}
			hit := false
			for i := range es {
				if src == "e"+string(rune('0'+i)) {
					eq, known := same(i)
					hit = known && eq && (id.Key() == qu.ids[i].Key() || id.Key() == qu.asked.Key())
				}
			}
			if !hit {
				bad = "the entry returned need not have the id asked for"
			}
			found++
		}
		c.use(in)
		c.Check("lookup", qu.lab, bad == "", p.Pos(fn.Pos()), "%s", bad)
	}
	c.Check("lookup", "FindByBankID", found > 0 && none > 0, p.Pos(fn.Pos()), "entries are never found, or always")
}

// indexed tells whether the lookup uses a map or a binary search.
func (x *dirCheck) indexed(fn *ssa.Function) (yes bool) {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] || f.Pkg != fn.Pkg {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch v := i.(type) {
				case *ssa.Lookup:
					yes = true
				case ssa.CallInstruction:
					if g := v.Common().StaticCallee(); g != nil {
						if strings.HasPrefix(g.String(), "sort.Search") || strings.HasPrefix(g.String(), "slices.BinarySearch") {
							yes = true
						}
						rec(g)
					}
				}
			}
		}
	}
	rec(fn)
	return
}

// derived computes the package level variables made from the directory.
func (x *dirCheck) derived(in *Interp, st *State, table *ssa.Global) *State {
	init := table.Pkg.Func("init")
	for _, b := range init.Blocks {
		for _, i := range b.Instrs {
			s, ok := i.(*ssa.Store)
			if !ok {
				continue
			}
			g, ok := s.Addr.(*ssa.Global)
			call, ok2 := s.Val.(*ssa.Call)
			if !ok || !ok2 || g == table || call.Call.StaticCallee() == nil || call.Call.StaticCallee().Pkg != table.Pkg {
				continue
			}
			var args []Val
			for _, a := range call.Call.Args {
				if u, ok := a.(*ssa.UnOp); ok && u.X == ssa.Value(table) {
					args = append(args, st.get(st.syms[mk("global:"+table.String(), table.Type()).Key()]))
				} else {
					args = append(args, sym("?"+a.Name(), a.Type()))
				}
			}
			ps := in.Run(st, call.Call.StaticCallee(), args...)
			if len(ps) == 1 && ps[0].Kind == "return" {
				st = ps[0].St
				st.frames = nil
				st.syms[mk("global:"+g.String(), g.Type()).Key()] = st.alloc(ps[0].Res[0])
			}
		}
	}
	return st
}

func (x *dirCheck) versions() {
	c, p := x.c, x.p
	es := c.directory(x.bi)
	bad, where := "", "-"
	type pair struct{ name, number string }
	pairs := map[pair]dirEntry{}
	ids := map[string]bool{}
	for _, e := range es {
		if e.text["BankID"] == "" || strings.TrimSpace(e.text["BankID"]) != e.text["BankID"] {
			bad, where = "an entry has no proper bank id", p.Pos(e.pos)
		}
		ids[e.text["BankID"]] = true
		k := pair{e.text["VersionName"], e.text["VersionNumber"]}
		if _, ok := pairs[k]; !ok {
			pairs[k] = e
		}
	}
	c.Check("data", "bank directory", bad == "" && len(es) > 100, where, "%d entries for %d bank ids; %s", len(es), len(ids), bad)
	fn := p.MethodOpt(x.bi, "HbciVersion")
	if fn == nil {
		c.Undecided("version", "HbciVersion", "bank entries tell no version")
		return
	}
	run := func(name, number Val) []Path {
		st := p.NewState()
		o := structWith(st, x.bi, "info.", func(f *types.Var) Val {
			switch f.Name() {
			case "VersionName":
				return name
			case "VersionNumber":
				return number
			}
			return nil
		})
		in := NewInterp(p)
		in.MaxFork = 2
		in.Hook = func(k *Call) ([]Outcome, bool) {
			switch k.Name {
			case "math.Max", "math.Min":
				a, ok1 := k.St.resolve(k.Args[0]).(*Const)
				b, ok2 := k.St.resolve(k.Args[1]).(*Const)
				if ok1 && ok2 {
					op := token.GTR
					if k.Name == "math.Min" {
						op = token.LSS
					}
					if constant.Compare(a.V, op, b.V) {
						return []Outcome{{Res: a}}, true
					}
					return []Outcome{{Res: b}}, true
				}
			}
			return nil, false
		}
		ps := in.Run(st, fn, st.get(o))
		c.use(in)
		return ps
	}
	var keys []pair
	for k := range pairs {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].name+keys[i].number < keys[j].name+keys[j].number })
	for _, k := range keys {
		a, ok1 := versionIn(k.name)
		b, ok2 := versionIn(k.number)
		want := max(a, b)
		lab := "name " + orElse(k.name, "none") + ", number " + orElse(k.number, "none")
		if !ok1 || !ok2 {
			c.Check("version", lab, false, p.Pos(pairs[k].pos), "no version is told by the texts %q and %q", k.name, k.number)
			continue
		}
		ps := run(cStr(k.name), cStr(k.number))
		good := len(ps) == 1 && ps[0].Kind == "return"
		got := -2
		if good {
			got, good = asNumber(ps[0].Res[0])
		}
		c.Check("version", lab, good && got == want, p.Pos(fn.Pos()), "texts %q and %q (e.g. %s) lead to version %d, not %d, or to a panic", k.name, k.number, p.Pos(pairs[k].pos), got, want)
	}
	// every accepted text by itself
	name, number := sym("name", tString), sym("number", tString)
	for _, one := range []struct {
		lab string
		ps  []Path
		t   *Term
	}{{"name", run(name, cStr("")), name}, {"number", run(cStr(""), number), number}} {
		n := 0
		for _, q := range one.ps {
			if q.Kind != "return" {
				continue
			}
			s, ok := asStr(q.St.resolve(one.t))
			if !ok {
				if got, isN := asNumber(q.Res[0]); isN && got > 0 {
					c.Check("mapping", one.lab+" of any kind", false, p.Pos(fn.Pos()), "a %s that is not told apart is mapped to version %d", one.lab, got)
				}
				continue
			}
			n++
			want, _ := versionIn(s)
			got, isN := asNumber(q.Res[0])
			c.Check("mapping", one.lab+" "+orElse(s, "none"), isN && got == want, p.Pos(fn.Pos()), "%s %q is mapped to version %d", one.lab, s, got)
		}
		if n < 2 {
			c.Undecided("mapping", one.lab, "the mapping does not compare texts")
		}
	}
	// the versions a number leads to
	g, _ := p.Pkg("segment").Members["SupportedHBCIVersions"].(*ssa.Global)
	if g == nil || p.Globals[g] == 0 {
		c.Undecided("supported", "SupportedHBCIVersions", "not found")
		return
	}
	st := p.NewState()
	m, ok := st.resolve(st.get(p.Globals[g])).(*MapRef)
	if !ok {
		c.Undecided("supported", "SupportedHBCIVersions", "its content is not known")
		return
	}
	vt := p.TypeNamed("segment", "HBCIVersion")
	vfn := p.MethodOpt(vt, "Version")
	for _, e := range st.get(m.Obj).(*MapC).E {
		k, _ := asInt(e.K)
		in := NewInterp(p)
		ps := in.Run(p.NewState(), vfn, e.V)
		got := -1
		if len(ps) == 1 && ps[0].Kind == "return" {
			got, _ = asInt(ps[0].Res[0])
		}
		c.Check("supported", e.K.Key(), got == k, p.Pos(g.Pos()), "number %d leads to version %d", k, got)
	}
}

// asNumber reads an integral constant of any numeric type.
func asNumber(v Val) (int, bool) {
	if k, ok := v.(*Const); ok {
		i := constant.ToInt(k.V)
		if n, exact := constant.Int64Val(i); exact && i.Kind() == constant.Int {
			return int(n), true
		}
	}
	return 0, false
}

// importer examines how records of the source file become entries.
func (x *dirCheck) importer(name string, elem *types.Named, cols map[string]string) {
	c, p := x.c, x.p
	fn := p.Func("bankinfo", name)
	st := p.NewState()
	in := NewInterp(p)
	in.MaxFork = 3
	in.MaxVisit = 12
	const records = 2
	in.Hook = func(k *Call) ([]Outcome, bool) {
		if strings.HasSuffix(k.Name, ".ReadAll") && k.Sig.Results().Len() == 2 {
			rt := k.Sig.Results().At(0).Type()
			sl, ok := under(rt).(*types.Slice)
			if !ok {
				return nil, false
			}
			var rs []Val
			for i := 0; i < records; i++ {
				rs = append(rs, nonNilTerm(k.St, mk("record:"+string(rune('0'+i)), sl.Elem())))
			}
			e := nonNilTerm(k.St, k.St.fresh("fault", tError))
			return []Outcome{{Res: tuple(k.In.newSlice(k.St, rt, partsOf(rs)), &Nil{tError})}, {Res: tuple(&Nil{rt}, e), Do: func(s *State) bool {
				s.emit("fault", k.Instr.Pos())
				return true
			}}}, true
		}
		if k.Recv != nil || k.Callee != nil && !p.InRepo(k.Callee) {
			if strings.HasSuffix(k.Name, ".Get") {
				r := k.Recv
				col := k.Args[len(k.Args)-1]
				if r == nil {
					r = k.Args[0]
				}
				return []Outcome{{Res: mk("column", tString, k.St.resolve(r), k.St.resolve(col))}}, true
			}
		}
		if strings.HasPrefix(k.Name, "(*log.Logger).") {
			return k.In.Results(k, k.Name, nil), true
		}
		return nil, false
	}
	bad := ""
	full := false
	fields := structFields(elem)
	for _, q := range in.Run(st, fn, symArgs(st, fn)...) {
		if q.Kind != "return" {
			if q.Kind == "trunc" {
				bad = "records are not followed to the end"
			}
			continue
		}
		fault := false
		for _, e := range q.St.Events() {
			fault = fault || e.Kind == "fault"
		}
		if fault {
			if q.success() {
				bad = "no error although the file cannot be read"
			}
			continue
		}
		if !q.success() {
			bad = "an error although the file was read"
			continue
		}
		// the records that have a bank id, in their order
		var want []string
		for i := 0; i < records; i++ {
			r := "record:" + string(rune('0'+i))
			empty, known := false, false
			q.St.conds(func(t *Term, b bool) {
				if (t.Op == "==" || t.Op == "!=") && mentionsOp(t, r) && mentionsOp(t, "column") && strings.Contains(t.Key(), `"`+cols["BankID"]+`"`) && strings.Contains(t.Key(), `""`) {
					known, empty = true, b == (t.Op == "==")
				}
			})
			if !known {
				bad = "records without a bank id are not told apart"
			}
			if known && !empty {
				want = append(want, r)
			}
		}
		ps, ok := in.parts(q.St, q.Res[0])
		if !ok || len(ps) != len(want) {
			if isNil(q.St.resolve(q.Res[0])) && len(want) == 0 {
				continue
			}
			bad = "the number of entries is not the number of records with a bank id"
			continue
		}
		full = full || len(want) == records
		for i, pt := range ps {
			s, ok := expand(q.St.resolve(pt.V)).(*Struct)
			if !ok {
				bad = "an entry is not known"
				continue
			}
			for j, f := range fields {
				col := cols[f.Name()]
				if col == "" {
					continue
				}
				var cs []string
				other := false
				walk(s.F[j], func(v Val) bool {
					if t, ok := v.(*Term); ok && t.Op == "column" {
						n, _ := asStr(t.A[1])
						cs = append(cs, n)
						if !mentionsOp(t.A[0], want[i]) {
							other = true
						}
						return false
					}
					return true
				})
				if len(cs) != 1 || cs[0] != col {
					bad = f.Name() + " is taken from " + strings.Join(cs, ",") + " instead of " + col
				} else if other {
					bad = f.Name() + " is taken from another record"
				}
			}
		}
	}
	c.use(in)
	c.Check("columns", name, bad == "" && full, p.Pos(fn.Pos()), "%s", orElse(bad, "no records are read"))
}

var (
	templateField = regexp.MustCompile(`(\w+):\s*("?)\{\{-?\s*([^}]*?)\s*-?\}\}`)
	fieldName     = regexp.MustCompile(`(?:^|[\s(|])(?:\$\w+)?\.(\w+)`)
	goQuoted      = regexp.MustCompile(`printf\s+["` + "`" + `](?:%\+?q|%#v)["` + "`" + `]|\|\s*[A-Za-z]*[qQ]uote\b|^[A-Za-z]*[qQ]uote\s`)
)

// template examines the text the generator fills in.
func (x *dirCheck) template() {
	c, p := x.c, x.p
	n := 0
	for _, k := range p.constants() {
		if k.Value.Kind() != constant.String {
			continue
		}
		s := constant.StringVal(k.Value)
		ms := templateField.FindAllStringSubmatch(s, -1)
		if len(ms) == 0 || !strings.Contains(s, x.bi.Obj().Name()) {
			continue
		}
		n++
		seen := map[string]bool{}
		bad := ""
		for _, m := range ms {
			seen[m[1]] = true
			f := fieldName.FindStringSubmatch(m[3])
			switch {
			case f == nil:
				bad = m[1] + " is filled from no attribute"
			case m[1] != f[1]:
				bad = m[1] + " is filled from " + f[1]
			case m[2] != "" || !goQuoted.MatchString(m[3]):
				bad = m[1] + " is not written as a quoted Go string: quotation marks and backslashes of the source are lost or end the text"
			}
		}
		for _, f := range structFields(x.bi) {
			if !seen[f.Name()] {
				bad = f.Name() + " is not written"
			}
		}
		c.Check("generated", p.Pos(k.Pos)[:strings.LastIndex(p.Pos(k.Pos), ":")], bad == "", p.Pos(k.Pos), "%s", bad)
	}
	if n == 0 {
		c.Undecided("generated", "directory template", "no template found")
	}
}

func partsOf(vs []Val) (ps []Part) {
	for _, v := range vs {
		ps = append(ps, Part{V: v})
	}
	return
}
