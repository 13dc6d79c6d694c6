package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P18"] = checkP18
	checks["P29"] = checkP29
}

// libraryPkg reports whether a function belongs to the library (not to the
// command line tools and generators).
func libraryPkg(fn *ssa.Function) bool {
	r := pkgRel(fn)
	return r != "" && !strings.HasPrefix(r, "cmd") && !strings.HasPrefix(r, "generator") && r != "domain/generator"
}

var decodePkgs = map[string]bool{"element": true, "segment": true, "message": true, "swift": true, "token": true, "charset": true, "internal": true, "transport": true, "iban": true, "dialog": true, "client": true}

func exportedFn(fn *ssa.Function) bool {
	if fn.Object() == nil || !token.IsExported(fn.Name()) {
		return false
	}
	return true
}

func checkP18(c *Ctx) {
	c.Rule("source", "the bytes handed to a decoder (every byte slice parameter of an exported function of the decoding packages)", 60)
	c.Rule("write", "no assignment, copy, append or library call in the analysed code writes to memory that may be the caller's bytes", 200)
	p := c.P
	f := newFlow(p)
	seeds := map[string]bool{}
	for _, fn := range f.funcs {
		rel := pkgRel(fn)
		if !decodePkgs[strings.Split(rel, "/")[0]] || !exportedFn(fn) {
			continue
		}
		name := fn.Name()
		if strings.HasPrefix(name, "Set") || strings.HasPrefix(name, "Write") {
			continue
		}
		for i, pr := range fn.Params {
			if i == 0 && fn.Signature.Recv() != nil {
				continue
			}
			t := pr.Type()
			ok := isByteSlice(t)
			if sl, is := under(t).(*types.Slice); is && isByteSlice(sl.Elem()) {
				ok = true
			}
			if !ok {
				continue
			}
			f.add(pr, 0, nil)
			seeds[fn.String()] = true
			c.Check("source", fn.String()+"."+pr.Name(), true, p.Pos(fn.Pos()), "")
		}
	}
	f.run()
	c.reportWrites(f, "write", func(m mutation) bool { return false })
	c.note("%d values may refer to the caller's bytes", len(f.val))
}

// reportWrites judges every writing instruction of the library.
func (c *Ctx) reportWrites(f *flow, rule string, allowed func(mutation) bool) {
	p := c.P
	bad := map[ssa.Instruction]mutation{}
	for _, m := range f.mutations() {
		if !libraryPkg(m.in.Parent()) || allowed(m) {
			continue
		}
		bad[m.in] = m
	}
	count := map[string]int{}
	for _, fn := range f.funcs {
		if !libraryPkg(fn) {
			continue
		}
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				w := false
				switch x := in.(type) {
				case *ssa.Store:
					_, isA := x.Addr.(*ssa.Alloc)
					w = !isA
				case *ssa.MapUpdate:
					w = true
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "delete", "clear":
							w = true
						}
					}
				}
				m, isBad := bad[in]
				if !w && !isBad {
					continue
				}
				n++
				if isBad {
					count[fn.String()+m.what]++
					c.Check(rule, fmt.Sprintf("%s: %s", fn.String(), m.what), false, p.Pos(in.Pos()), "%s writes to it: %s", m.what, f.path(m.v))
				}
			}
		}
		if n > 0 {
			c.Check(rule, fn.String(), true, p.Pos(fn.Pos()), "%d writing instructions", n)
		}
	}
}

// initOnly lists the functions that run during program initialisation only.
func (p *Prog) initOnly() map[*ssa.Function]bool {
	_, callers := p.callGraph()
	only := map[*ssa.Function]bool{}
	isInit := func(fn *ssa.Function) bool {
		return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
	}
	for _, fn := range p.AllFuncs() {
		if !exportedFn(fn) && fn.Name() != "main" && len(callers[fn]) > 0 && fn.Parent() == nil {
			only[fn] = true
		}
		if isInit(fn) {
			only[fn] = true
		}
	}
	for changed := true; changed; {
		changed = false
		for fn := range only {
			if isInit(fn) {
				continue
			}
			for _, cs := range callers[fn] {
				pa := cs.Parent()
				if pa.Synthetic != "" && pa.Name() == "init" {
					continue
				}
				if !only[pa] {
					delete(only, fn)
					changed = true
					break
				}
			}
		}
	}
	return only
}

func checkP29(c *Ctx) {
	c.Rule("global", "package-level data of the library and of the packages it uses", 20)
	c.Rule("write", "no instruction outside program initialisation and the set-up calls for logging and debug mode writes to memory reachable from package-level data", 200)
	p := c.P
	f := newFlow(p)
	seen := map[*ssa.Global]bool{}
	for _, fn := range f.funcs {
		if !libraryPkg(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if o == nil || *o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Global); ok && !seen[g] {
						seen[g] = true
					}
				}
			}
		}
	}
	var gl []*ssa.Global
	for g := range seen {
		gl = append(gl, g)
	}
	for path, sp := range p.SPkg {
		if !strings.HasPrefix(path, modPath) {
			continue
		}
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && !seen[g] {
				rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
				if !strings.HasPrefix(rel, "cmd") && !strings.HasPrefix(rel, "generator") {
					gl = append(gl, g)
					seen[g] = true
				}
			}
		}
	}
	sort.Slice(gl, func(i, j int) bool { return gl[i].String() < gl[j].String() })
	for _, g := range gl {
		if strings.HasPrefix(g.Name(), "init$") {
			continue
		}
		f.val[g] = 1
		f.work = append(f.work, g)
		c.Check("global", g.String(), true, p.Pos(g.Pos()), "")
	}
	f.run()
	only := p.initOnly()
	c.reportWrites(f, "write", func(m mutation) bool {
		fn := m.in.Parent()
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if only[fn] {
			return true
		}
		return setupCall(p, m)
	})
	c.note("%d package-level variables, %d values may refer to them", len(gl), len(f.val))
}

// setupCall recognises the documented set-up of debug mode and loggers: a
// direct assignment to a logging variable of the internal package.
func setupCall(p *Prog, m mutation) bool {
	st, ok := m.in.(*ssa.Store)
	if !ok {
		return false
	}
	g, ok := st.Addr.(*ssa.Global)
	if !ok || pkgRel(m.in.Parent()) != "internal" {
		return false
	}
	t := g.Type().(*types.Pointer).Elem()
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		return true
	}
	n := namedOf(t)
	return n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "log"
}
