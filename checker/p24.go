package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P24"] = checkP24 }

// cliRoot is a function the command line tool hands to cobra.
type cliRoot struct {
	fn   *ssa.Function
	role string // run, runE, init, main
}

// cliRoots finds the functions of the tool that are run by cobra.
func (c *Ctx) cliRoots(rel string) (roots []cliRoot) {
	p := c.P
	pkg := p.Pkg(rel)
	add := func(v ssa.Value, role string) {
		for {
			switch x := v.(type) {
			case *ssa.ChangeType:
				v = x.X
				continue
			case *ssa.MakeClosure:
				v = x.Fn
				continue
			}
			break
		}
		if fn, ok := v.(*ssa.Function); ok {
			roots = append(roots, cliRoot{fn, role})
		}
	}
	fns := p.AllFuncs()
	if f := pkg.Func("init"); f != nil {
		fns = append(fns[:len(fns):len(fns)], f)
	}
	done := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if done[fn] {
			continue
		}
		done[fn] = true
		if fn.Pkg != pkg && (fn.Parent() == nil || fn.Parent().Pkg != pkg) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok || !strings.HasSuffix(structKey(fa.X.Type()), "cobra.Command") {
						continue
					}
					pt, _ := fa.X.Type().Underlying().(*types.Pointer)
					name := pt.Elem().Underlying().(*types.Struct).Field(fa.Field).Name()
					if !strings.Contains(name, "Run") {
						continue
					}
					role := "run"
					if strings.HasSuffix(name, "E") {
						role = "runE"
					}
					if name != "Run" && name != "RunE" {
						role = "init"
					}
					add(x.Val, role)
				case ssa.CallInstruction:
					sc := x.Common().StaticCallee()
					if sc == nil || !strings.HasSuffix(sc.String(), "cobra.OnInitialize") {
						continue
					}
					for _, a := range x.Common().Args {
						sl, ok := a.(*ssa.Slice)
						if !ok {
							continue
						}
						al, ok := sl.X.(*ssa.Alloc)
						if !ok {
							continue
						}
						for _, r := range *al.Referrers() {
							if ia, ok := r.(*ssa.IndexAddr); ok {
								for _, rr := range *ia.Referrers() {
									if s, ok := rr.(*ssa.Store); ok {
										add(s.Val, "init")
									}
								}
							}
						}
					}
				}
			}
		}
	}
	if m := pkg.Func("main"); m != nil {
		roots = append(roots, cliRoot{m, "main"})
	}
	sort.SliceStable(roots, func(i, j int) bool { return roots[i].fn.Pos() < roots[j].fn.Pos() })
	return
}

// settings lists calls whose failure means that a setting is absent, which is
// noticed when the setting is needed.
func settings(name string) bool {
	if strings.HasSuffix(name, "os.File).Sync") || strings.HasSuffix(name, "os.File).Close") {
		return true // neither the client nor the configuration nor the bank
	}
	return strings.Contains(name, "viper.") || strings.Contains(name, "MarkPersistentFlagRequired") || strings.Contains(name, "MarkFlagRequired")
}

// cliRun executes one function of the tool; the call at fail reports an error.
func (c *Ctx) cliRun(pkg *ssa.Package, fn *ssa.Function, fail ssa.Instruction, found func(ssa.Instruction, string)) []Path {
	return c.cliRunFrom(pkg, fn, fail, found, nil, nil)
}

// cliRunFrom executes one function of the tool from a known state; first is
// asked about each call before the general rules are.
func (c *Ctx) cliRunFrom(pkg *ssa.Package, fn *ssa.Function, fail ssa.Instruction, found func(ssa.Instruction, string), from *State, first func(*Call) ([]Outcome, bool)) []Path {
	p := c.P
	in := NewInterp(p)
	in.MaxFork = 2
	in.MaxPaths = 4000
	in.ConvFork = false
	local := func(f *ssa.Function) bool {
		for f != nil && f.Parent() != nil {
			f = f.Parent()
		}
		return f != nil && (f.Pkg == pkg || f.Synthetic != "" && f.Pkg == nil || plainRecord(f))
	}
	in.Inline = local
	in.Hook = func(k *Call) ([]Outcome, bool) {
		name := calleeName(k)
		if first != nil {
			if out, done := first(k); done {
				return out, true
			}
		}
		if k.Callee != nil && local(k.Callee) && len(k.Callee.Blocks) > 0 {
			return nil, false
		}
		if k.Name == "os.Exit" {
			code := k.Args[0]
			return []Outcome{{Panic: "exit", Do: func(s *State) bool { s.emit("exit", k.Instr.Pos(), code); return true }}}, true
		}
		if strings.HasPrefix(k.Name, "log.Fatal") || strings.HasPrefix(k.Name, "(*log.Logger).Fatal") {
			var l []Val
			for _, a := range k.Args {
				l = append(l, k.In.deep(k.St, a))
			}
			return []Outcome{{Panic: "exit", Do: func(s *State) bool {
				s.emit("output", k.Instr.Pos(), l...)
				s.emit("exit", k.Instr.Pos(), cInt(1))
				return true
			}}}, true
		}
		if _, out := outputCall(k); out {
			var l []Val
			for _, a := range k.Args {
				l = append(l, k.In.deep(k.St, a))
			}
			k.St.emit("output", k.Instr.Pos(), l...)
			var rs []Val
			for i := 0; i < k.Sig.Results().Len(); i++ {
				if isError(k.Sig.Results().At(i).Type()) {
					rs = append(rs, &Nil{tError})
				} else {
					rs = append(rs, k.St.fresh("n", k.Sig.Results().At(i).Type()))
				}
			}
			return []Outcome{{Res: tuple(rs...)}}, true
		}
		if k.Callee != nil && p.InRepo(k.Callee) && !returnsError(k.Sig) {
			if plainRecord(k.Callee) {
				return nil, false
			}
			return in.Results(k, name, deepAll(in, k.St, k.Args)), true
		}
		if !returnsError(k.Sig) || neverFails(k.Name) {
			return nil, false
		}
		found(k.Instr, name)
		k.St.emit("query", k.Instr.Pos(), append([]Val{cStr(name)}, deepAll(in, k.St, k.Args)...)...)
		k.St.fresh("n", tInt)
		rs := k.Sig.Results()
		kind := "got"
		if k.Callee != nil && pkgRel(k.Callee) == "client" && k.Sig.Recv() != nil {
			kind = "data"
		}
		var ok, bad []Val
		for i := 0; i < rs.Len()-1; i++ {
			t := k.St.fresh(kind+":"+name, rs.At(i).Type())
			if isNillable(t.T) {
				nonNilTerm(k.St, t)
			}
			bad = append(bad, k.St.fresh("none", t.T))
			ok = append(ok, t)
		}
		good := Outcome{Res: tuple(append(ok, &Nil{tError})...)}
		if k.Instr != fail {
			return []Outcome{good}, true
		}
		e := k.St.fresh("fault", tError)
		return []Outcome{good, {Res: tuple(append(bad, e)...), Do: func(s *State) bool {
			nonNilTerm(s, e)
			for _, b := range bad {
				if t := b.(*Term); isNillable(t.T) && t.T != tError {
					s.assume(mk("==", tBool, t, &Nil{t.T}), true)
				}
			}
			s.emit("fault", k.Instr.Pos())
			return true
		}}}, true
	}
	st := from
	if st == nil {
		st = p.NewState()
	}
	var args []Val
	for _, prm := range fn.Params {
		t := sym("arg:"+prm.Name(), prm.Type())
		if isNillable(prm.Type()) {
			nonNilTerm(st, t)
		}
		args = append(args, t)
	}
	// the variables of the tool hold what flags and earlier steps put there
	for _, m := range pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok || p.Globals[g] == 0 || from != nil {
			continue
		}
		t := under(g.Type()).(*types.Pointer).Elem()
		if strings.Contains(t.String(), "cobra.Command") {
			continue
		}
		v := sym("var:"+g.Name(), t)
		if isNillable(t) {
			nonNilTerm(st, v)
		}
		st.set(p.Globals[g], v)
	}
	ps := in.Run(st, fn, args...)
	c.use(in)
	return ps
}

// plainRecord reports whether a function only makes one account description
// from another.
func plainRecord(f *ssa.Function) bool {
	if pkgRel(f) != "domain" || f.Signature.Results().Len() != 1 {
		return false
	}
	n := namedOf(f.Signature.Results().At(0).Type())
	return n != nil && strings.HasSuffix(n.Obj().Name(), "Connection")
}

func checkP24(c *Ctx) {
	c.Rule("failure", "a command in which any step reports an error ends with a non-zero exit status (or hands the error to cobra, whose error ends the tool with a non-zero status)", 8)
	c.Rule("no-results", "after a failed step no data of the bank is printed", 8)
	c.Rule("success", "a command whose steps succeed prints what the bank delivered and ends normally, without a non-zero exit status", 3)
	c.Rule("settings", "without user id or bank id, no client is made and the tool ends with a non-zero exit status", 2)
	p := c.P
	rel := "cmd/banking"
	pkg := p.Pkg(rel)
	if pkg == nil {
		fatalf("no command line tool")
	}
	roots := c.cliRoots(rel)
	sites := 0
	for _, r := range roots {
		type site struct {
			i    ssa.Instruction
			name string
		}
		var order []site
		seen := map[ssa.Instruction]bool{}
		add := func(i ssa.Instruction, name string) {
			if !seen[i] && !settings(name) {
				seen[i] = true
				order = append(order, site{i, name})
			}
		}
		lab := r.role + " " + strings.TrimPrefix(strings.ReplaceAll(r.fn.String(), modPath+"/", ""), rel+".")
		if r.role == "run" || r.role == "runE" {
			lab = "command " + strings.Join(c.cliCommand(r.fn), " ")
		}
		where := p.Pos(r.fn.Pos())
		ps := c.cliRun(pkg, r.fn, nil, add)
		if r.role == "run" || r.role == "runE" {
			ended, printed, bad := 0, true, ""
			for _, q := range ps {
				code, exits := exitCode(q)
				switch {
				case q.Kind == "panic":
					bad = "panics: " + q.Where
				case exits && code != "0":
					bad = "ends with exit status " + code
				case r.role == "runE" && !isNilErr(q):
					bad = "returns an error"
				default:
					ended++
					out := false
					for _, e := range q.St.Events() {
						if e.Kind == "output" {
							for _, a := range e.Args {
								out = out || showsData(a)
							}
						}
					}
					printed = printed && (out || noData(q.St))
				}
			}
			c.Check("success", lab, bad == "" && ended > 0 && printed, where, "all steps succeed, but the command %s", orElse(bad, "does not print the data obtained"))
		}
		num := map[string]int{}
		for i := 0; i < len(order); i++ {
			s := order[i]
			sites++
			num[s.name]++
			con := fmt.Sprintf("%s, failing %s #%d", lab, s.name, num[s.name])
			good, quiet, n := true, true, 0
			for _, q := range c.cliRun(pkg, r.fn, s.i, add) {
				hit, leak := false, false
				for _, e := range q.St.Events() {
					switch e.Kind {
					case "fault":
						hit = true
					case "output":
						for _, a := range e.Args {
							leak = leak || hit && (mentionsOp(a, "data:") || mentionsOp(a, "none") || nilData(a))
						}
					}
				}
				if !hit {
					continue
				}
				n++
				quiet = quiet && !leak
				code, exits := exitCode(q)
				switch {
				case exits:
					good = good && code != "0"
				case q.Kind == "panic":
				case r.role == "runE" && !isNilErr(q):
				default:
					good = false
				}
			}
			if n == 0 {
				continue
			}
			c.Check("failure", con, good, p.Pos(s.i.Pos()), "the tool goes on, or ends with status zero, although %s failed", s.name)
			c.Check("no-results", con, quiet, p.Pos(s.i.Pos()), "data is printed although %s failed", s.name)
		}
		if r.role == "init" {
			c.cliSettings(pkg, r.fn, where)
		}
	}
}

// showsData reports whether a value contains what the bank delivered, rather
// than only how much it was.
func showsData(v Val) (shows bool) {
	walk(v, func(x Val) bool {
		if t, ok := x.(*Term); ok {
			switch {
			case t.Op == "len" || t.Op == "cap" || t.Op == "==" || t.Op == "!=":
				return false
			case strings.HasPrefix(t.Op, "data:"):
				shows = true
			}
		}
		return !shows
	})
	return
}

// nilData reports whether a value shows an empty result of a failed step.
func nilData(v Val) (found bool) {
	walk(v, func(x Val) bool {
		if n, ok := x.(*Nil); ok && n.T != nil {
			if n2, ok := n.T.(*types.Named); ok && n2.Obj().Pkg() != nil && strings.HasPrefix(n2.Obj().Pkg().Path(), modPath) {
				found = true
			}
			if s, ok := under(n.T).(*types.Slice); ok && namedOf(s.Elem()) != nil && strings.HasPrefix(fmt.Sprint(namedOf(s.Elem()).Obj().Pkg()), "package domain") {
				found = true
			}
		}
		return !found
	})
	return
}

// noData reports whether a path knows that the bank delivered nothing.
func noData(st *State) (none bool) {
	st.conds(func(t *Term, _ bool) {
		walk(t, func(x Val) bool {
			if l, ok := x.(*Term); ok && l.Op == "len" && mentionsOp(l, "data:") {
				if _, hi := st.interval(l); hi == 0 {
					none = true
				}
			}
			return !none
		})
	})
	return
}

func orElse(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

// exitCode is the status a path ends the process with.
func exitCode(q Path) (string, bool) {
	for _, e := range q.St.Events() {
		if e.Kind == "exit" {
			if n, ok := asInt(e.Args[0]); ok {
				return fmt.Sprint(n), true
			}
			return "unknown", true
		}
	}
	return "", false
}

func isNilErr(q Path) bool {
	e := errOf(q)
	return e == nil || q.St.nilness(e) == 1
}

// cliCommand names a command by the method of the client it uses.
func (c *Ctx) cliCommand(fn *ssa.Function) []string {
	var l []string
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if ci, ok := i.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil {
						if pkgRel(g) == "client" {
							l = append(l, g.Name())
						} else if pkgRel(g) == "cmd/banking" {
							rec(g)
						}
					}
				}
			}
		}
	}
	rec(fn)
	return l
}

// cliSettings checks the preparation of the client.
func (c *Ctx) cliSettings(pkg *ssa.Package, fn *ssa.Function, where string) {
	makes := false
	for _, q := range c.cliRun(pkg, fn, nil, func(i ssa.Instruction, n string) { makes = makes || strings.HasSuffix(n, "client.New") }) {
		_ = q
	}
	if !makes {
		return
	}
	cfg := c.P.TypeNamed("client", "Config")
	for _, name := range []string{"AccountID", "BankID"} {
		ok, n, why := true, 0, ""
		for _, q := range c.cliRun(pkg, fn, nil, func(ssa.Instruction, string) {}) {
			if code, exits := exitCode(q); exits {
				if code == "0" {
					ok, why = false, "ends with status zero without a client"
				}
				continue
			}
			if q.Kind != "return" {
				continue
			}
			n++
			// the configuration handed over
			set := false
			for _, m := range pkg.Members {
				g, isG := m.(*ssa.Global)
				if !isG || c.P.Globals[g] == 0 {
					continue
				}
				if under(g.Type()).(*types.Pointer).Elem() != types.Type(cfg) {
					continue
				}
				s, isS := expand(q.St.resolve(q.St.get(c.P.Globals[g]))).(*Struct)
				if !isS {
					continue
				}
				for i, f := range structFields(cfg) {
					if f.Name() == name {
						set = true
						if b, known := q.St.truth(mk("==", tBool, s.F[i], cStr(""))); !known || b {
							ok, why = false, "a client is made although "+name+" may be empty"
						}
					}
				}
			}
			if !set {
				c.Undecided("settings", name, "the configuration of the client is not a variable of the tool")
				return
			}
		}
		c.Check("settings", name, ok && n > 0, where, "%s", orElse(why, "no client is made at all"))
	}
}
