package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/mitch000001/go-hbci"

// Prog is the loaded program.
type Prog struct {
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	SSA     *ssa.Program
	ByPath  map[string]*packages.Package
	SPkg    map[string]*ssa.Package
	Globals map[*ssa.Global]int
	Base    map[int]Val
	BaseN   int
	Root    string
	cgOut   map[ssa.CallInstruction][]*ssa.Function
	cgIn    map[*ssa.Function][]ssa.CallInstruction
	embedBy map[*types.Named][]*types.Named
}

type fatalErr struct{ msg string }

func fatalf(f string, a ...any) { panic(fatalErr{fmt.Sprintf(f, a...)}) }

func load(root string) *Prog {
	cfg := &packages.Config{Dir: root, Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fatalf("load: %v", err)
	}
	p := &Prog{Pkgs: pkgs, ByPath: map[string]*packages.Package{}, SPkg: map[string]*ssa.Package{}, Globals: map[*ssa.Global]int{}, Root: root}
	for _, pk := range pkgs {
		if len(pk.Errors) > 0 {
			fatalf("package %s does not type-check: %v", pk.PkgPath, pk.Errors[0])
		}
		p.ByPath[pk.PkgPath] = pk
		p.Fset = pk.Fset
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p.SSA = prog
	for i, s := range sp {
		if s == nil {
			fatalf("no SSA for %s", pkgs[i].PkgPath)
		}
		s.Build()
		p.SPkg[pkgs[i].PkgPath] = s
	}
	return p
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	if r, err := filepath.Rel(p.Root, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		return fmt.Sprintf("%s:%d", r, q.Line)
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

func (p *Prog) Pkg(rel string) *ssa.Package {
	s := p.SPkg[modPath+"/"+rel]
	if s == nil {
		fatalf("package %s not found", rel)
	}
	return s
}

// Func finds a package-level function.
func (p *Prog) Func(rel, name string) *ssa.Function {
	f := p.Pkg(rel).Func(name)
	if f == nil {
		fatalf("function %s.%s not found", rel, name)
	}
	return f
}

// TypeNamed finds a named type.
func (p *Prog) TypeNamed(rel, name string) *types.Named {
	t := p.Pkg(rel).Type(name)
	if t == nil {
		fatalf("type %s.%s not found", rel, name)
	}
	n, ok := t.Type().(*types.Named)
	if !ok {
		fatalf("type %s.%s is not named", rel, name)
	}
	return n
}

// Method finds a method of *T (including promoted ones); nil if absent.
func (p *Prog) MethodOpt(t types.Type, name string) *ssa.Function {
	ms := p.SSA.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.SSA.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (p *Prog) Method(rel, typ, name string) *ssa.Function {
	t := types.NewPointer(p.TypeNamed(rel, typ))
	f := p.MethodOpt(t, name)
	if f == nil {
		fatalf("method %s.%s.%s not found", rel, typ, name)
	}
	return f
}

// InRepo reports whether the function belongs to the analysed repository.
func (p *Prog) InRepo(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath)
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return strings.HasPrefix(fn.Object().Pkg().Path(), modPath)
	}
	if fn.Origin() != nil {
		return p.InRepo(fn.Origin())
	}
	return len(fn.Blocks) > 0
}

// AllFuncs lists every source function and closure of the repository, sorted.
func (p *Prog) AllFuncs() []*ssa.Function {
	var out []*ssa.Function
	for fn := range ssautil.AllFunctions(p.SSA) {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		out = append(out, fn)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].String() != out[j].String() {
			return out[i].String() < out[j].String()
		}
		return out[i].Pos() < out[j].Pos()
	})
	return out
}

// InitGlobals abstractly evaluates the package initialisers so that package-level
// tables are known to the analysis.
func (p *Prog) InitGlobals(skip map[string]bool) {
	st := &State{base: map[int]Val{}, heap: map[int]Val{}, syms: map[string]int{}, facts: map[string]Fact{}, notes: map[string]Val{}}
	var paths []string
	for k := range p.SPkg {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		if skip[k] {
			continue
		}
		var names []string
		for n := range p.SPkg[k].Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if g, ok := p.SPkg[k].Members[n].(*ssa.Global); ok {
				p.Globals[g] = st.alloc(zero(under(g.Type()).(*types.Pointer).Elem()))
			}
		}
	}
	for _, k := range paths {
		if skip[k] {
			continue
		}
		fn := p.SPkg[k].Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		in := NewInterp(p)
		in.MaxVisit = 100000
		in.ConvFork = false
		in.MaxSteps = 20000000
		in.Hook = func(c *Call) ([]Outcome, bool) {
			if c.Callee != nil && c.Callee.Name() == "init" && c.Callee.Pkg != nil && skip[c.Callee.Pkg.Pkg.Path()] {
				return []Outcome{{Res: &Tuple{}}}, true
			}
			return nil, false
		}
		var done *State
		in.OnPath = func(pt Path) {
			if pt.Kind == "return" && done == nil {
				done = pt.St
			}
		}
		saved := st.clone()
		in.Run(st, fn)
		if done == nil {
			fmt.Fprintf(os.Stderr, "note: initialiser of %s not evaluated\n", k)
			st = saved
			continue
		}
		st = done
		st.frames = nil
		st.facts = map[string]Fact{}
	}
	for k, v := range st.heap {
		st.base[k] = v
	}
	p.Base = st.base
	p.BaseN = st.next
}

// NewState starts an analysis state on top of the evaluated globals.
func (p *Prog) NewState() *State {
	return &State{base: p.Base, heap: map[int]Val{}, syms: map[string]int{}, facts: map[string]Fact{}, notes: map[string]Val{}, next: p.BaseN}
}
