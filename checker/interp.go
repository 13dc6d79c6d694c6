package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation record.
type Frame struct {
	fn      *ssa.Function
	idx     map[ssa.Value]int // shared per function
	env     []Val
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	defers  []deferred
	forks   map[int]int
	visits  map[int]int
	call    ssa.Instruction // instruction in the caller receiving the result; nil for root
	isDefer bool
}

type deferred struct {
	fnv    Val
	callee *ssa.Function
	common *ssa.CallCommon
	args   []Val
	recv   Val
	method *types.Func
	instr  ssa.Instruction
}

// Event is something a hook recorded.
type Event struct {
	Kind  string
	Args  []Val
	St    *State // heap snapshot
	Pos   token.Pos
	Stack []string
	Prev  *Event
	N     int
}

// State is one abstract state of the analysis (one partition).
type State struct {
	base   map[int]Val
	heap   map[int]Val
	syms   map[string]int
	facts  map[string]Fact
	frames []*Frame
	events *Event
	next   int
	steps  int
	notes  map[string]Val
	forkn  int
	widen  map[string]bool
}

func (s *State) clone() *State {
	c := &State{base: s.base, events: s.events, next: s.next, steps: s.steps, forkn: s.forkn}
	c.heap = make(map[int]Val, len(s.heap)+8)
	for k, v := range s.heap {
		c.heap[k] = v
	}
	c.syms = make(map[string]int, len(s.syms))
	for k, v := range s.syms {
		c.syms[k] = v
	}
	c.facts = make(map[string]Fact, len(s.facts)+8)
	for k, v := range s.facts {
		c.facts[k] = v
	}
	c.notes = make(map[string]Val, len(s.notes))
	for k, v := range s.notes {
		c.notes[k] = v
	}
	for _, f := range s.frames {
		n := *f
		n.env = append([]Val(nil), f.env...)
		n.defers = append([]deferred(nil), f.defers...)
		n.forks = make(map[int]int, len(f.forks))
		for k, v := range f.forks {
			n.forks[k] = v
		}
		n.visits = make(map[int]int, len(f.visits))
		for k, v := range f.visits {
			n.visits[k] = v
		}
		c.frames = append(c.frames, &n)
	}
	return c
}

// snapshot keeps heap and facts but no frames.
func (s *State) snapshot() *State {
	fr := s.frames
	s.frames = nil
	c := s.clone()
	s.frames = fr
	return c
}

func (s *State) get(o int) Val {
	if v, ok := s.heap[o]; ok {
		return v
	}
	return s.base[o]
}
func (s *State) set(o int, v Val) { s.heap[o] = v }
func (s *State) alloc(v Val) int {
	s.next++
	s.heap[s.next] = v
	return s.next
}
func (s *State) fresh(op string, t types.Type, a ...Val) *Term {
	s.next++
	return mk(fmt.Sprintf("%s#%d", op, s.next), t, a...)
}

func (s *State) emit(kind string, pos token.Pos, args ...Val) *Event {
	n := 0
	if s.events != nil {
		n = s.events.N + 1
	}
	e := &Event{Kind: kind, Args: args, Pos: pos, Prev: s.events, N: n, St: s.snapshot()}
	for _, f := range s.frames {
		e.Stack = append(e.Stack, f.fn.String())
	}
	s.events = e
	return e
}

// Events returns the recorded events in order.
func (s *State) Events() []*Event {
	var r []*Event
	for e := s.events; e != nil; e = e.Prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// Call describes a call seen by a hook.
type Call struct {
	In     *Interp
	St     *State
	Callee *ssa.Function
	Name   string // full name of callee or of the interface method
	Method *types.Func
	Recv   Val // for unresolved invokes
	Args   []Val
	Sig    *types.Signature
	Instr  ssa.Instruction
}

// Outcome is one possible result of a modelled call.
type Outcome struct {
	Res   Val
	Do    func(*State) bool // false prunes
	Panic string
}

// Path is one analysed path partition.
type Path struct {
	Kind  string // return, panic, trunc
	Res   []Val
	St    *State
	Where string
}

// Site is a potential run-time panic that the analysis could not exclude.
type Site struct {
	Kind  string
	Fn    *ssa.Function
	Instr ssa.Instruction
	Desc  string
	Stack []string
	V     Val        // what is dereferenced or asserted
	T     types.Type // what it is asserted to be
}

// Interp runs the abstract interpretation.
type Interp struct {
	P         *Prog
	Hook      func(c *Call) ([]Outcome, bool)
	OnSite    func(st *State, s Site)
	CheckNil  bool // report dereferences of possibly-nil symbolic pointers
	MaxFork   int
	MaxVisit  int
	MaxDepth  int
	MaxRec    int
	MaxPaths  int
	MaxSteps  int
	Paths     []Path
	DeepN     int
	OnPath    func(Path) // if set, paths are not collected
	Truncated int
	Funcs     map[*ssa.Function]bool
	Opaque    map[string]int
	idx       map[*ssa.Function]map[ssa.Value]int
	work      []*State
	Total     int
	steps     int
	Exhausted bool
	Inline    func(fn *ssa.Function) bool
	curPath   func(Path)
	ConvFork  bool // fork error conventions of opaque calls
}

func NewInterp(p *Prog) *Interp {
	return &Interp{P: p, MaxFork: 3, MaxVisit: 400, MaxDepth: 60, MaxRec: 3, MaxPaths: 60000, MaxSteps: 8000000,
		Funcs: map[*ssa.Function]bool{}, Opaque: map[string]int{}, idx: map[*ssa.Function]map[ssa.Value]int{}, ConvFork: true, DeepN: 6}
}

func (in *Interp) index(fn *ssa.Function) map[ssa.Value]int {
	if m, ok := in.idx[fn]; ok {
		return m
	}
	m := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) { m[v] = n; n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	in.idx[fn] = m
	return m
}

func (in *Interp) pushFrame(st *State, fn *ssa.Function, args, bind []Val, call ssa.Instruction) {
	in.Funcs[fn] = true
	m := in.index(fn)
	f := &Frame{fn: fn, idx: m, env: make([]Val, len(m)), block: fn.Blocks[0], forks: map[int]int{}, visits: map[int]int{}, call: call}
	for i, p := range fn.Params {
		if i < len(args) {
			f.env[m[p]] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			f.env[m[p]] = bind[i]
		}
	}
	st.frames = append(st.frames, f)
}

// Run analyses fn from state st and returns all path partitions.
func (in *Interp) Run(st *State, fn *ssa.Function, args ...Val) []Path {
	if len(fn.Blocks) == 0 {
		fatalf("no body for %s", fn)
	}
	in.Paths = nil
	in.Total = 0
	in.steps = 0
	in.Exhausted = false
	in.pushFrame(st, fn, args, nil, nil)
	in.work = []*State{st}
	for len(in.work) > 0 {
		s := in.work[len(in.work)-1]
		in.work = in.work[:len(in.work)-1]
		in.runState(s)
		if in.Total > in.MaxPaths || in.steps > in.MaxSteps {
			in.Exhausted = true
			in.work = nil
			break
		}
	}
	return in.Paths
}

// RunClosure analyses a function value.
func (in *Interp) RunClosure(st *State, c *Closure, args ...Val) []Path {
	in.Paths = nil
	in.Total = 0
	in.steps = 0
	in.Exhausted = false
	in.pushFrame(st, c.Fn, args, c.Bind, nil)
	in.work = []*State{st}
	for len(in.work) > 0 {
		s := in.work[len(in.work)-1]
		in.work = in.work[:len(in.work)-1]
		in.runState(s)
		if in.Total > in.MaxPaths || in.steps > in.MaxSteps {
			in.Exhausted = true
			in.work = nil
			break
		}
	}
	return in.Paths
}

func (in *Interp) finish(p Path) {
	in.Total++
	if p.Kind == "trunc" {
		in.Truncated++
	}
	if in.OnPath != nil {
		in.OnPath(p)
		return
	}
	in.Paths = append(in.Paths, p)
}

func (in *Interp) runState(st *State) {
	for {
		in.steps++
		if in.steps > in.MaxSteps {
			return
		}
		f := st.frames[len(st.frames)-1]
		if f.pc >= len(f.block.Instrs) {
			in.finish(Path{Kind: "trunc", St: st, Where: "fell off block"})
			return
		}
		instr := f.block.Instrs[f.pc]
		if !in.step(st, f, instr) {
			return
		}
		if len(st.frames) == 0 {
			return
		}
	}
}

func (in *Interp) val(st *State, f *Frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return zero(x.Type())
		}
		return &Const{normConst(x.Value, x.Type()), x.Type()}
	case *ssa.Function:
		return &Closure{Fn: x}
	case *ssa.Global:
		if o, ok := in.P.Globals[x]; ok {
			return &Ptr{Obj: o}
		}
		return mk("global:"+x.String(), x.Type())
	case *ssa.Builtin:
		return mk("builtin:"+x.Name(), x.Type())
	}
	i, ok := f.idx[v]
	if !ok {
		return mk("undef:"+v.Name(), v.Type())
	}
	r := f.env[i]
	if r == nil {
		return mk("unset:"+v.Name(), v.Type())
	}
	return r
}

func normConst(v constant.Value, t types.Type) constant.Value {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return v
	}
	if b.Info()&types.IsInteger != 0 {
		return constant.ToInt(v)
	}
	if b.Info()&types.IsFloat != 0 {
		return constant.ToFloat(v)
	}
	return v
}

func (in *Interp) setv(f *Frame, v ssa.Value, x Val) { f.env[f.idx[v]] = x }

// decide evaluates cond, forking the state if unknown. The clone re-executes the
// current instruction with the opposite assumption.
func (in *Interp) decide(st *State, cond Val) (bool, bool) {
	if b, ok := st.truth(cond); ok {
		return b, true
	}
	other := st.clone()
	other.forkn++
	if other.assume(cond, false) {
		in.work = append(in.work, other)
	}
	st.forkn++
	if !st.assume(cond, true) {
		return false, false // this side infeasible
	}
	return true, true
}

// trace describes the current call stack.
func (st *State) trace() []string {
	var r []string
	for _, f := range st.frames {
		r = append(r, f.fn.String())
	}
	return r
}

func (in *Interp) site(st *State, f *Frame, instr ssa.Instruction, kind, desc string) {
	in.siteOf(st, f, instr, kind, desc, nil, nil)
}

func (in *Interp) siteOf(st *State, f *Frame, instr ssa.Instruction, kind, desc string, v Val, T types.Type) {
	if in.OnSite != nil {
		in.OnSite(st, Site{Kind: kind, Fn: f.fn, Instr: instr, Desc: desc, Stack: st.trace(), V: v, T: T})
	}
}

// obj resolves a pointer value to an object and path, materialising symbolic objects.
func (in *Interp) obj(st *State, f *Frame, instr ssa.Instruction, p Val) (int, []int, bool) {
	p = st.resolve(p)
	switch x := p.(type) {
	case *Ptr:
		return x.Obj, x.Path, true
	case *Nil:
		in.site(st, f, instr, "nilderef", "dereference of nil")
		return 0, nil, false
	case *Term:
		n := st.nilness(x)
		if n == 0 {
			if in.CheckNil {
				in.siteOf(st, f, instr, "nilderef", "dereference of possibly nil "+shortKey(x.key), x, nil)
			}
			fc := st.fact(x.key)
			fc.Nil = 2
			st.setFact(x.key, fc)
		}
		if o, ok := st.syms[x.key]; ok {
			return o, nil, true
		}
		var et types.Type = types.Typ[types.Invalid]
		if pt, ok := under(x.T).(*types.Pointer); ok {
			et = pt.Elem()
		}
		v := mk("*", et, x)
		if strings.HasPrefix(x.Op, "global:") && isError(et) {
			nonNilTerm(st, v) // the error values of other packages
		}
		o := st.alloc(v)
		st.syms[x.key] = o
		return o, nil, true
	}
	return 0, nil, false
}

func shortKey(k string) string {
	if len(k) > 120 {
		return k[:120] + "…"
	}
	return k
}

func (in *Interp) load(st *State, f *Frame, instr ssa.Instruction, p Val, t types.Type) (Val, bool) {
	o, path, ok := in.obj(st, f, instr, p)
	if !ok {
		if _, isN := st.resolve(p).(*Nil); isN {
			return nil, false
		}
		return st.fresh("load", t), true
	}
	v, ok := getPath(st.get(o), path)
	if !ok {
		return st.fresh("load", t), true
	}
	return v, true
}

func (in *Interp) store(st *State, f *Frame, instr ssa.Instruction, p, v Val) bool {
	o, path, ok := in.obj(st, f, instr, p)
	if !ok {
		_, isN := st.resolve(p).(*Nil)
		return !isN
	}
	n, ok := setPath(st.get(o), path, v)
	if ok {
		st.set(o, n)
	} else {
		st.set(o, st.fresh("clobber", types.Typ[types.Invalid]))
	}
	return true
}

func (in *Interp) jump(st *State, f *Frame, to *ssa.BasicBlock) bool {
	f.prev = f.block
	f.block = to
	f.pc = 0
	f.visits[to.Index]++
	if f.visits[to.Index] > in.MaxVisit {
		in.finish(Path{Kind: "trunc", St: st, Where: "loop bound in " + f.fn.String()})
		return false
	}
	// phis
	pi := -1
	for i, p := range to.Preds {
		if p == f.prev {
			pi = i
			break
		}
	}
	var vals []Val
	n := 0
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		vals = append(vals, in.val(st, f, phi.Edges[pi]))
	}
	for i := 0; i < n; i++ {
		in.setv(f, to.Instrs[i].(*ssa.Phi), vals[i])
	}
	f.pc = n
	return true
}

func (in *Interp) panicPath(st *State, where string) bool {
	in.finish(Path{Kind: "panic", St: st, Where: where})
	return false
}

// step executes one instruction; false ends the path.
func (in *Interp) step(st *State, f *Frame, instr ssa.Instruction) bool {
	switch x := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		et := under(x.Type()).(*types.Pointer).Elem()
		in.setv(f, x, &Ptr{Obj: st.alloc(zero(et))})
	case *ssa.BinOp:
		r, ok := in.binop(st, f, x)
		if !ok {
			return false
		}
		in.setv(f, x, r)
	case *ssa.UnOp:
		a := in.val(st, f, x.X)
		switch x.Op {
		case token.MUL:
			v, ok := in.load(st, f, x, a, x.Type())
			if !ok {
				return in.panicPath(st, "nil dereference at "+in.P.Pos(x.Pos()))
			}
			in.setv(f, x, v)
		case token.NOT:
			if b, ok := asBool(st.resolve(a)); ok {
				in.setv(f, x, cBool(!b))
			} else {
				in.setv(f, x, mk("!", x.Type(), a))
			}
		case token.SUB:
			if c, ok := asConst(st.resolve(a)); ok {
				in.setv(f, x, &Const{constant.UnaryOp(token.SUB, c.V, 0), x.Type()})
			} else {
				in.setv(f, x, mk("neg", x.Type(), a))
			}
		case token.ARROW:
			if q, closed, ok := st.queue(a); ok && (len(q) > 0 || closed) {
				v, open := st.pop(a, under(x.X.Type()).(*types.Chan).Elem())
				if x.CommaOk {
					v = &Tuple{[]Val{v, cBool(open)}}
				}
				in.setv(f, x, v)
				break
			}
			v := Val(st.fresh("recv", x.Type(), a))
			if x.CommaOk {
				tt := x.Type().(*types.Tuple)
				v = &Tuple{[]Val{st.fresh("recv", tt.At(0).Type(), a), st.fresh("ok", tBool)}}
			}
			in.setv(f, x, v)
		default:
			in.setv(f, x, mk(x.Op.String(), x.Type(), a))
		}
	case *ssa.ChangeType:
		in.setv(f, x, retype(in.val(st, f, x.X), x.Type()))
	case *ssa.ChangeInterface:
		in.setv(f, x, in.val(st, f, x.X))
	case *ssa.MakeInterface:
		v := in.val(st, f, x.X)
		in.setv(f, x, &Iface{Dyn: x.X.Type(), V: v})
	case *ssa.Convert:
		in.setv(f, x, in.convert(st, in.val(st, f, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		in.setv(f, x, mk("conv", x.Type(), in.val(st, f, x.X)))
	case *ssa.SliceToArrayPointer:
		in.setv(f, x, mk("arrptr", x.Type(), in.val(st, f, x.X)))
	case *ssa.Extract:
		t := in.val(st, f, x.Tuple)
		if tp, ok := t.(*Tuple); ok && x.Index < len(tp.V) {
			in.setv(f, x, tp.V[x.Index])
		} else {
			in.setv(f, x, mk(fmt.Sprintf("ext%d", x.Index), x.Type(), t))
		}
	case *ssa.Field:
		v, ok := getPath(in.val(st, f, x.X), []int{x.Field})
		if !ok {
			v = mk(fmt.Sprintf("field%d", x.Field), x.Type(), in.val(st, f, x.X))
		}
		in.setv(f, x, v)
	case *ssa.FieldAddr:
		p := in.val(st, f, x.X)
		o, path, ok := in.obj(st, f, x, p)
		if !ok {
			return in.panicPath(st, "nil dereference at "+in.P.Pos(x.Pos()))
		}
		in.setv(f, x, &Ptr{Obj: o, Path: append(append([]int(nil), path...), x.Field)})
	case *ssa.Index:
		v, ok := in.indexVal(st, f, x, in.val(st, f, x.X), in.val(st, f, x.Index), x.Type())
		if !ok {
			return false
		}
		if v == nil {
			return true // re-execute after fork
		}
		in.setv(f, x, v)
	case *ssa.IndexAddr:
		v, ok := in.indexAddr(st, f, x)
		if !ok {
			return false
		}
		in.setv(f, x, v)
	case *ssa.Lookup:
		v, ok := in.lookup(st, f, x)
		if !ok {
			return false
		}
		in.setv(f, x, v)
	case *ssa.Slice:
		v, ok := in.slice(st, f, x)
		if !ok {
			return false
		}
		in.setv(f, x, v)
	case *ssa.MakeSlice:
		ln := st.resolve(in.val(st, f, x.Len))
		n, ok := asInt(ln)
		et := under(x.Type()).(*types.Slice).Elem()
		if ok && n >= 0 && n <= 256 {
			sq := &Seq{}
			z := zero(et)
			for i := 0; i < n; i++ {
				sq.P = append(sq.P, Part{V: z})
			}
			in.setv(f, x, &Slice{Obj: st.alloc(sq), Lo: 0, Hi: n, T: x.Type()})
		} else {
			if !ok {
				if lo, _ := st.interval(ln); lo < 0 {
					in.siteOf(st, f, x, "makeslice", "make with unbounded length "+shortKey(ln.Key()), ln, nil)
				} else if _, hi := st.interval(ln); hi > 1<<40 && !isLenBounded(ln) {
					in.siteOf(st, f, x, "makeslice", "make with unbounded length "+shortKey(ln.Key()), ln, nil)
				}
			}
			t := st.fresh("make", x.Type(), ln)
			st.setFact(t.key, Fact{Nil: 2})
			st.setIv(ln, 0, 1<<62)
			in.setv(f, x, &Slice{Obj: st.alloc(&Seq{P: []Part{{V: t, Spread: true}}}), Lo: 0, Hi: -1, T: x.Type()})
		}
	case *ssa.MakeMap:
		in.setv(f, x, &MapRef{Obj: st.alloc(&MapC{}), T: x.Type()})
	case *ssa.MakeChan:
		t := st.fresh("chan", x.Type())
		st.setFact(t.key, Fact{Nil: 2})
		st.syms["queue:"+t.key] = st.alloc(&Tuple{})
		in.setv(f, x, t)
	case *ssa.MakeClosure:
		c := &Closure{Fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.Bind = append(c.Bind, in.val(st, f, b))
		}
		in.setv(f, x, c)
	case *ssa.MapUpdate:
		m := st.resolve(in.val(st, f, x.Map))
		if mr, ok := m.(*MapRef); ok {
			mc, ok := st.get(mr.Obj).(*MapC)
			if ok {
				st.set(mr.Obj, mapSet(st, mc, in.val(st, f, x.Key), in.val(st, f, x.Value)))
			}
		} else if _, ok := m.(*Nil); ok {
			in.site(st, f, x, "nilmap", "assignment to nil map")
			return in.panicPath(st, "nil map write at "+in.P.Pos(x.Pos()))
		} else if t, ok := m.(*Term); ok {
			o, ok := st.syms["map:"+t.key]
			if !ok {
				o = st.alloc(&MapC{Base: t})
				st.syms["map:"+t.key] = o
			}
			st.set(o, mapSet(st, st.get(o).(*MapC), in.val(st, f, x.Key), in.val(st, f, x.Value)))
		}
	case *ssa.Range:
		st.next++
		in.setv(f, x, &IterV{X: st.resolve(in.val(st, f, x.X)), Id: st.next})
	case *ssa.Next:
		if !in.nextIter(st, f, x) {
			return false
		}
	case *ssa.TypeAssert:
		v, ok := in.typeAssert(st, f, x)
		if !ok {
			return false
		}
		in.setv(f, x, v)
	case *ssa.Store:
		if !in.store(st, f, x, in.val(st, f, x.Addr), in.val(st, f, x.Val)) {
			return in.panicPath(st, "nil dereference at "+in.P.Pos(x.Pos()))
		}
	case *ssa.If:
		c := in.val(st, f, x.Cond)
		b, known := st.truth(c)
		if !known {
			f.forks[f.block.Index]++
			if f.forks[f.block.Index] > in.MaxFork {
				// bound reached: leave the loop if this is a loop exit test
				inLoop0 := reaches(f.block.Succs[0], f.block)
				inLoop1 := reaches(f.block.Succs[1], f.block)
				if inLoop0 != inLoop1 {
					b = !inLoop0
					if !st.assume(c, b) {
						return false
					}
					in.Truncated++
					goto decided
				}
				in.finish(Path{Kind: "trunc", St: st, Where: "fork bound in " + f.fn.String()})
				return false
			}
			var ok bool
			b, ok = in.decide(st, c)
			if !ok {
				return false
			}
		}
	decided:
		if b {
			return in.jump(st, f, f.block.Succs[0])
		}
		return in.jump(st, f, f.block.Succs[1])
	case *ssa.Jump:
		return in.jump(st, f, f.block.Succs[0])
	case *ssa.Panic:
		v := in.val(st, f, x.X)
		in.site(st, f, x, "panic", "explicit panic "+shortKey(v.Key()))
		return in.panicPath(st, "panic at "+in.P.Pos(x.Pos()))
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return in.runDeferred(st, f, d)
		}
	case *ssa.Defer:
		f.defers = append(f.defers, in.mkDeferred(st, f, x))
	case *ssa.Go:
		st.syms["go"] = 1 // channels may be used by others from now on
	case *ssa.Send:
		st.push(in.val(st, f, x.Chan), in.val(st, f, x.X))
	case *ssa.Select:
		tt := x.Type().(*types.Tuple)
		if v := in.selectQueued(st, f, x, tt); v != nil {
			in.setv(f, x, v)
			break
		}
		tp := &Tuple{}
		for i := 0; i < tt.Len(); i++ {
			tp.V = append(tp.V, st.fresh("select", tt.At(i).Type()))
		}
		in.setv(f, x, tp)
	case *ssa.Return:
		var res []Val
		for _, r := range x.Results {
			res = append(res, in.val(st, f, r))
		}
		return in.ret(st, f, res)
	case *ssa.Call:
		return in.call(st, f, x, x.Common(), x)
	default:
		fatalf("unsupported instruction %T in %s", instr, f.fn)
	}
	f.pc++
	return true
}

func isLenBounded(v Val) bool {
	t, ok := v.(*Term)
	if !ok {
		return false
	}
	switch t.Op {
	case "len", "cap":
		return true
	case "+", "*", "conv", "-":
		for _, a := range t.A {
			if _, ok := a.(*Const); ok {
				continue
			}
			if !isLenBounded(a) {
				return false
			}
		}
		return true
	}
	if strings.HasPrefix(t.Op, "call:") {
		// lengths computed by library encoders from lengths
		for _, a := range t.A {
			if _, ok := a.(*Const); ok {
				continue
			}
			if isLenBounded(a) {
				return true
			}
		}
	}
	return false
}

var reachCache = map[[2]*ssa.BasicBlock]bool{}

func reaches(from, to *ssa.BasicBlock) bool {
	k := [2]*ssa.BasicBlock{from, to}
	if r, ok := reachCache[k]; ok {
		return r
	}
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock) bool
	dfs = func(b *ssa.BasicBlock) bool {
		if b == to {
			return true
		}
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, s := range b.Succs {
			if dfs(s) {
				return true
			}
		}
		return false
	}
	r := dfs(from)
	reachCache[k] = r
	return r
}

func (in *Interp) ret(st *State, f *Frame, res []Val) bool {
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		in.finish(Path{Kind: "return", Res: res, St: st, Where: f.fn.String()})
		return false
	}
	c := st.frames[len(st.frames)-1]
	if f.isDefer {
		return true // caller re-executes RunDefers
	}
	in.setResult(c, f.call, res)
	c.pc++
	return true
}

func (in *Interp) setResult(c *Frame, call ssa.Instruction, res []Val) {
	v, ok := call.(ssa.Value)
	if !ok {
		return
	}
	var r Val
	if len(res) == 1 {
		if tt, ok := v.Type().(*types.Tuple); ok && tt.Len() != 1 {
			r = res[0]
		} else {
			r = res[0]
		}
	} else {
		r = &Tuple{res}
	}
	in.setv(c, v, r)
}

func retype(v Val, t types.Type) Val {
	switch x := v.(type) {
	case *Const:
		return &Const{x.V, t}
	case *Nil:
		return &Nil{t}
	case *Slice:
		return &Slice{x.Obj, x.Lo, x.Hi, t}
	case *Struct:
		return &Struct{t, x.F}
	case *MapRef:
		return &MapRef{x.Obj, t}
	case *Term:
		if isInterfaceT(x.T) != isInterfaceT(t) {
			return x
		}
		return &Term{Op: x.Op, A: x.A, T: t, key: x.key}
	}
	return v
}

func isInterfaceT(t types.Type) bool { return t != nil && types.IsInterface(t) }

func (in *Interp) convert(st *State, v Val, from, to types.Type) Val {
	v = st.resolve(v)
	if c, ok := asConst(v); ok {
		tb, ok := under(to).(*types.Basic)
		if ok {
			if tb.Info()&types.IsString != 0 && c.V.Kind() == constant.Int {
				i, _ := constant.Int64Val(c.V)
				return &Const{constant.MakeString(string(rune(i))), to}
			}
			if tb.Info()&types.IsString != 0 && c.V.Kind() == constant.String {
				return &Const{c.V, to}
			}
			if tb.Info()&types.IsInteger != 0 && (c.V.Kind() == constant.Int || c.V.Kind() == constant.Float) {
				if c.V.Kind() == constant.Float {
					f, _ := constant.Float64Val(c.V)
					return &Const{constant.MakeInt64(int64(f)), to}
				}
				return &Const{c.V, to}
			}
			if tb.Info()&types.IsFloat != 0 {
				return &Const{constant.ToFloat(c.V), to}
			}
		}
		if isByteSlice(to) && c.V.Kind() == constant.String {
			return &Term{Op: "conv", A: []Val{c}, T: to, key: "conv(" + c.Key() + ")"}
		}
	}
	// string <-> []byte
	strish := func(t types.Type) bool { return isString(t) || isByteSlice(t) }
	if strish(from) && strish(to) {
		if t, ok := v.(*Term); ok {
			if isString(from) == isString(to) {
				return retype(t, to)
			}
			if t.Op == "conv" {
				if a := valType(t.A[0]); a != nil && strish(a) && isString(a) == isString(to) {
					return retype(t.A[0], to)
				}
			}
			return mk("conv", to, t)
		}
		if sl, ok := v.(*Slice); ok {
			// byte sequence to string
			b := in.bytesTerm(st, sl)
			if s, ok := asStr(stripConv(b)); ok {
				return &Const{constant.MakeString(s), to}
			}
			return mk("conv", to, b)
		}
		if isNil(v) {
			return &Const{constant.MakeString(""), to}
		}
	}
	if sl, ok := v.(*Slice); ok && isString(to) && isRunes(from) {
		if ps, ok := in.parts(st, sl); ok {
			if r, ok := runesText(st, ps); ok {
				return retypeStr(r, to)
			}
		}
	}
	if t, ok := v.(*Term); ok && isString(to) && isInteger(from) {
		if r, ok := runesText(st, []Part{{V: t}}); ok {
			return retypeStr(r, to)
		}
	}
	if isInteger(from) && isInteger(to) {
		if t, ok := v.(*Term); ok {
			fb, tb := under(from).(*types.Basic), under(to).(*types.Basic)
			if sizeOf(tb.Kind()) >= sizeOf(fb.Kind()) && (fb.Info()&types.IsUnsigned == tb.Info()&types.IsUnsigned) {
				return retype(t, to)
			}
			lo, hi := st.interval(t)
			if lo >= 0 && hi <= maxOf(tb.Kind()) {
				return retype(t, to)
			}
			if len(t.A) == 1 && t.Op == "iconv" && types.Identical(valType(t.A[0]), to) {
				return t.A[0]
			}
			return mk("iconv:"+tb.Name(), to, t)
		}
	}
	return mk("conv", to, v)
}

func sizeOf(k types.BasicKind) int {
	switch k {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}
func maxOf(k types.BasicKind) int64 {
	switch k {
	case types.Int8:
		return 127
	case types.Uint8:
		return 255
	case types.Int16:
		return 32767
	case types.Uint16:
		return 65535
	case types.Int32:
		return 1<<31 - 1
	case types.Uint32:
		return 1<<32 - 1
	}
	return 1 << 62
}

// bytesTerm views a byte slice with known content as a string-like term.
func (in *Interp) bytesTerm(st *State, v Val) Val {
	v = st.resolve(v)
	sl, ok := v.(*Slice)
	if !ok {
		return v
	}
	ps, ok := in.parts(st, sl)
	if !ok {
		return mk("bytes", tBytes, v)
	}
	var out []Val
	buf := []byte{}
	flush := func() {
		if len(buf) > 0 {
			out = append(out, cStr(string(buf)))
			buf = nil
		}
	}
	for _, p := range ps {
		if p.Spread {
			flush()
			out = append(out, p.V)
			continue
		}
		if i, ok := asInt(st.resolve(p.V)); ok && i >= 0 && i < 256 {
			buf = append(buf, byte(i))
			continue
		}
		flush()
		out = append(out, mk("byte1", tBytes, p.V))
	}
	flush()
	return catOf(tBytes, out...)
}

func catOf(t types.Type, vs ...Val) Val {
	var out []Val
	for _, v := range vs {
		if c, ok := v.(*Term); ok && c.Op == "cat" {
			for _, a := range c.A {
				out = appendCat(out, a)
			}
			continue
		}
		out = appendCat(out, v)
	}
	if len(out) == 0 {
		return &Const{constant.MakeString(""), t}
	}
	if len(out) == 1 {
		return retypeStr(out[0], t)
	}
	return mk("cat", t, out...)
}

func retypeStr(v Val, t types.Type) Val {
	switch x := v.(type) {
	case *Const:
		if isByteSlice(t) {
			return &Term{Op: "conv", A: []Val{x}, T: t, key: "conv(" + x.Key() + ")"}
		}
		return &Const{x.V, t}
	case *Term:
		return retype(x, t)
	}
	return v
}

// stripConv removes string/[]byte conversions.
func stripConv(v Val) Val {
	for {
		t, ok := v.(*Term)
		if !ok || t.Op != "conv" || len(t.A) != 1 {
			return v
		}
		a := valType(t.A[0])
		if a == nil || !(isString(a) || isByteSlice(a)) || !(isString(t.T) || isByteSlice(t.T)) {
			return v
		}
		v = t.A[0]
	}
}

func appendCat(out []Val, v Val) []Val {
	v = stripConv(v)
	if t, ok := v.(*Term); ok && t.Op == "cat" {
		for _, a := range t.A {
			out = appendCat(out, a)
		}
		return out
	}
	if s, ok := asStr(v); ok {
		if s == "" {
			return out
		}
		if n := len(out); n > 0 {
			if p, ok := asStr(out[n-1]); ok {
				out[n-1] = cStr(p + s)
				return out
			}
		}
	}
	if isNil(v) {
		return out
	}
	return append(out, v)
}

// parts returns the components of a slice with known backing.
func (in *Interp) parts(st *State, v Val) ([]Part, bool) {
	switch x := st.resolve(v).(type) {
	case *Nil:
		return nil, true
	case *Slice:
		c := st.get(x.Obj)
		var all []Part
		switch s := c.(type) {
		case *Seq:
			all = s.P
		case *Struct:
			for _, f := range s.F {
				all = append(all, Part{V: f})
			}
		default:
			return nil, false
		}
		lo, hi := x.Lo, x.Hi
		if hi < 0 || hi > len(all) {
			hi = len(all)
		}
		if lo > hi {
			lo = hi
		}
		return all[lo:hi], true
	case *Term:
		if _, ok := under(x.T).(*types.Slice); ok {
			return []Part{{V: x, Spread: true}}, true
		}
	}
	return nil, false
}

func (in *Interp) newSlice(st *State, t types.Type, ps []Part) Val {
	return &Slice{Obj: st.alloc(&Seq{P: append([]Part(nil), ps...)}), Lo: 0, Hi: len(ps), T: t}
}

func (in *Interp) lenVal(st *State, v Val) Val {
	v = st.resolve(v)
	switch x := v.(type) {
	case *Nil:
		return cInt(0)
	case *Slice:
		ps, ok := in.parts(st, x)
		if !ok {
			return mk("len", tInt, x)
		}
		var b Val
		var o int64
		for _, p := range ps {
			if p.Spread {
				lb, lo := linear(in.lenVal(st, p.V))
				o += lo
				if lb != nil {
					if b == nil {
						b = lb
					} else {
						b = mk("+", tInt, b, lb)
					}
				}
			} else {
				o++
			}
		}
		return st.resolve(mkLinear(b, o, tInt))
	case *MapRef:
		mc := st.get(x.Obj).(*MapC)
		if mc.Base == nil {
			return cInt(int64(len(mc.E)))
		}
		return mk("len", tInt, mc)
	}
	return st.resolve(lenOf(v))
}

// elemAt finds element k of a sequence. The bool results are: value found; need (a condition to decide first).
func (in *Interp) elemAt(st *State, v Val, k int, et types.Type) (Val, int, *Slice, Val) {
	v = st.resolve(v)
	switch x := v.(type) {
	case *Slice:
		ps, ok := in.parts(st, x)
		if !ok {
			return mk("idx", et, x, cInt(int64(k))), -1, nil, nil
		}
		rem := k
		for i, p := range ps {
			if !p.Spread {
				if rem == 0 {
					return p.V, x.Lo + i, x, nil
				}
				rem--
				continue
			}
			lv := in.lenVal(st, p.V)
			c := mk("<", tBool, cInt(int64(rem)), lv)
			b, known := st.truth(c)
			if !known {
				return nil, 0, nil, c
			}
			if b {
				return in.idxTerm(st, p.V, cInt(int64(rem)), et), -1, nil, nil
			}
			n, ok := asInt(lv)
			if !ok {
				// len <= rem but not exact: decide equality stepwise
				for j := 0; j <= rem; j++ {
					e := mk("==", tBool, lv, cInt(int64(j)))
					if b, known := st.truth(e); !known {
						return nil, 0, nil, e
					} else if b {
						n = j
						break
					}
				}
			}
			rem -= n
		}
		return nil, -1, nil, nil
	case *Term:
		return in.idxTerm(st, x, cInt(int64(k)), et), -1, nil, nil
	}
	return mk("idx", et, v, cInt(int64(k))), -1, nil, nil
}

func (in *Interp) idxTerm(st *State, base Val, k Val, et types.Type) Val {
	if n, ok := asInt(k); ok && et != nil && isInteger(et) {
		ps := textParts(base)
		for _, p := range ps {
			s, isC := asStr(p)
			if !isC {
				break
			}
			if n >= 0 && n < len(s) {
				return &Const{constant.MakeInt64(int64(s[n])), et}
			}
			n -= len(s)
		}
	}
	// slices of symbolic bases shift indices
	if t, ok := base.(*Term); ok && t.Op == "slice" && len(t.A) == 3 {
		b, o := linear(k)
		b2, o2 := linear(t.A[1])
		if b == nil || b2 == nil {
			nb := b
			if nb == nil {
				nb = b2
			}
			return in.idxTerm(st, t.A[0], mkLinear(nb, o+o2, tInt), et)
		}
	}
	return mk("idx", et, base, k)
}

// boundsCheck ensures 0 <= k < n. Returns false if the path must end.
func (in *Interp) boundsCheck(st *State, f *Frame, instr ssa.Instruction, k, n Val, what string) bool {
	lo, _ := st.interval(k)
	okLow := lo >= 0
	c := mk("<", tBool, k, n)
	b, known := st.truth(c)
	if known && !b {
		in.siteOf(st, f, instr, "index", fmt.Sprintf("index %s out of range for length %s", shortKey(k.Key()), shortKey(n.Key())), mk("index", tInt, k, n), nil)
		return false
	}
	if !known || !okLow {
		in.siteOf(st, f, instr, "index?", fmt.Sprintf("index %s not provably within length %s", shortKey(k.Key()), shortKey(n.Key())), mk("index", tInt, k, n), nil)
		if !st.assume(c, true) {
			return false
		}
	}
	return true
}

func (in *Interp) indexVal(st *State, f *Frame, x *ssa.Index, base, idx Val, t types.Type) (Val, bool) {
	base, idx = st.resolve(base), st.resolve(idx)
	n := in.lenVal(st, base)
	if !in.boundsCheck(st, f, x, idx, n, "index") {
		return nil, in.panicPath(st, "index out of range at "+in.P.Pos(x.Pos()))
	}
	if s, ok := asStr(base); ok {
		if k, ok := asInt(idx); ok && k >= 0 && k < len(s) {
			return &Const{constant.MakeInt64(int64(s[k])), t}, true
		}
	}
	if k, ok := asInt(idx); ok {
		if s, ok := base.(*Struct); ok && k < len(s.F) && k >= 0 {
			return s.F[k], true
		}
	}
	return mk("idx", t, stripConv(base), idx), true
}

func (in *Interp) indexAddr(st *State, f *Frame, x *ssa.IndexAddr) (Val, bool) {
	base, idx := st.resolve(in.val(st, f, x.X)), st.resolve(in.val(st, f, x.Index))
	et := under(x.Type()).(*types.Pointer).Elem()
	if pt, ok := under(x.X.Type()).(*types.Pointer); ok {
		// pointer to array
		o, path, ok := in.obj(st, f, x, base)
		if !ok {
			return nil, in.panicPath(st, "nil dereference at "+in.P.Pos(x.Pos()))
		}
		al := under(pt.Elem()).(*types.Array).Len()
		if !in.boundsCheck(st, f, x, idx, cInt(al), "array") {
			return nil, in.panicPath(st, "index out of range at "+in.P.Pos(x.Pos()))
		}
		if k, ok := asInt(idx); ok {
			return &Ptr{Obj: o, Path: append(append([]int(nil), path...), k)}, true
		}
		c, _ := getPath(st.get(o), path)
		if c == nil {
			c = mk("arr", pt.Elem())
		}
		return &Ptr{Obj: st.alloc(mk("idx", et, c, idx))}, true
	}
	n := in.lenVal(st, base)
	if !in.boundsCheck(st, f, x, idx, n, "slice") {
		return nil, in.panicPath(st, "index out of range at "+in.P.Pos(x.Pos()))
	}
	if k, ok := asInt(idx); ok {
		for {
			v, pos, sl, need := in.elemAt(st, base, k, et)
			if need != nil {
				if _, ok := in.decide(st, need); !ok {
					return nil, false
				}
				continue
			}
			if sl != nil && pos >= 0 {
				return &Ptr{Obj: sl.Obj, Path: []int{pos}}, true
			}
			if v == nil {
				return nil, in.panicPath(st, "index out of range at "+in.P.Pos(x.Pos()))
			}
			return in.elemPtr(st, v), true
		}
	}
	if sl, ok := base.(*Slice); ok {
		return in.elemPtr(st, mk("idx", et, mk("seq:"+sl.Key()+st.seqKey(in, sl), sl.T), idx)), true
	}
	return in.elemPtr(st, in.idxTerm(st, base, idx, et)), true
}

func (st *State) seqKey(in *Interp, sl *Slice) string {
	if c := st.get(sl.Obj); c != nil {
		return c.Key()
	}
	return ""
}

// elemPtr gives a stable address for a symbolic element.
func (in *Interp) elemPtr(st *State, v Val) Val {
	k := "elem:" + v.Key()
	if o, ok := st.syms[k]; ok {
		return &Ptr{Obj: o}
	}
	o := st.alloc(v)
	st.syms[k] = o
	return &Ptr{Obj: o}
}

func (in *Interp) slice(st *State, f *Frame, x *ssa.Slice) (Val, bool) {
	base := st.resolve(in.val(st, f, x.X))
	var lo, hi Val = cInt(0), nil
	if x.Low != nil {
		lo = st.resolve(in.val(st, f, x.Low))
	}
	if x.High != nil {
		hi = st.resolve(in.val(st, f, x.High))
	}
	// pointer to array
	if _, ok := under(x.X.Type()).(*types.Pointer); ok {
		o, path, ok := in.obj(st, f, x, base)
		if !ok {
			return nil, in.panicPath(st, "nil dereference")
		}
		c, _ := getPath(st.get(o), path)
		n := -1
		if s, ok := expand(c).(*Struct); ok {
			n = len(s.F)
			if len(path) == 0 {
				st.set(o, s)
			}
		}
		l, okl := asInt(lo)
		h := n
		okh := true
		if hi != nil {
			h, okh = asInt(hi)
		}
		if okl && okh && len(path) == 0 && n >= 0 {
			return &Slice{Obj: o, Lo: l, Hi: h, T: x.Type()}, true
		}
		return mk("slice", x.Type(), c, lo, orLen(hi, in, st, c)), true
	}
	n := in.lenVal(st, base)
	h := hi
	if h == nil {
		h = n
	}
	// bounds
	if !(hi == nil && isZero(lo)) {
		cap := n
		if hi != nil {
			c := mk("<=", tBool, h, cap)
			b, known := st.truth(c)
			if known && !b {
				if isString(x.X.Type()) || true {
					in.siteOf(st, f, x, "slice", fmt.Sprintf("slice bound %s beyond length %s", shortKey(h.Key()), shortKey(n.Key())), mk("bound", tInt, h, n), nil)
				}
				return nil, in.panicPath(st, "slice bounds at "+in.P.Pos(x.Pos()))
			}
			if !known {
				in.siteOf(st, f, x, "slice?", fmt.Sprintf("slice bound %s not provably within length %s", shortKey(h.Key()), shortKey(n.Key())), mk("bound", tInt, h, n), nil)
				if !st.assume(c, true) {
					return nil, false
				}
			}
		}
		c := mk("<=", tBool, lo, h)
		b, known := st.truth(c)
		if known && !b {
			in.siteOf(st, f, x, "slice", fmt.Sprintf("slice low bound %s beyond high bound %s", shortKey(lo.Key()), shortKey(h.Key())), mk("bound", tInt, lo, h), nil)
			return nil, in.panicPath(st, "slice bounds at "+in.P.Pos(x.Pos()))
		}
		ll, _ := st.interval(lo)
		if !known || ll < 0 {
			in.siteOf(st, f, x, "slice?", fmt.Sprintf("slice low bound %s not provably within high bound %s", shortKey(lo.Key()), shortKey(h.Key())), mk("bound", tInt, lo, h), nil)
			if !st.assume(c, true) {
				return nil, false
			}
		}
	}
	switch b := base.(type) {
	case *Slice:
		ps, ok := in.parts(st, b)
		if ok {
			l, okl := asInt(lo)
			hh, okh := -1, true
			if hi != nil {
				hh, okh = asInt(h)
			}
			plain := true
			for _, p := range ps {
				if p.Spread {
					plain = false
				}
			}
			if plain && okl && okh {
				if hh < 0 {
					hh = len(ps)
				}
				if hh < l {
					return nil, in.panicPath(st, "slice bounds at "+in.P.Pos(x.Pos()))
				}
				return &Slice{Obj: b.Obj, Lo: b.Lo + l, Hi: b.Lo + hh, T: x.Type()}, true
			}
			if okl && okh {
				// allow cutting plain prefix/suffix elements
				pre := 0
				for pre < len(ps) && !ps[pre].Spread {
					pre++
				}
				if l <= pre && hi == nil {
					return in.newSlice(st, x.Type(), ps[l:]), true
				}
				if hi != nil && okh && hh < l {
					return nil, in.panicPath(st, "slice bounds at "+in.P.Pos(x.Pos()))
				}
				if hi != nil && hh <= pre {
					return in.newSlice(st, x.Type(), ps[l:hh]), true
				}
			}
			if okl {
				// s[l:len(s)-k] with plain suffix
				if tail := in.tailCut(st, ps, n, hi); tail >= 0 {
					return in.newSlice(st, x.Type(), ps[l:len(ps)-tail]), true
				}
			}
		}
	case *Const:
		if s, ok := asStr(b); ok {
			l, ok1 := asInt(lo)
			hh, ok2 := asInt(h)
			if ok1 && ok2 && l >= 0 && hh <= len(s) && l <= hh {
				return &Const{constant.MakeString(s[l:hh]), x.Type()}, true
			}
		}
	case *Nil:
		return b, true
	}
	if hi == nil && isZero(lo) {
		return base, true
	}
	if h.Key() == n.Key() && isZero(lo) {
		return base, true
	}
	sb := base
	if isString(x.X.Type()) || isByteSlice(x.X.Type()) {
		sb = stripConv(base)
	}
	if s, ok := asStr(sb); ok {
		l, ok1 := asInt(lo)
		hh, ok2 := asInt(h)
		if ok1 && ok2 && l >= 0 && hh <= len(s) && l <= hh {
			return catOf(x.Type(), cStr(s[l:hh])), true
		}
	}
	if c, ok := sb.(*Term); ok && (c.Op == "cat" || isFld(c) || c.Op == "itoa") {
		if head, _, ok := cutAt(in, st, textParts(c), h); ok {
			if _, mid, ok := cutAt(in, st, head, lo); ok {
				return catOf(x.Type(), mid...), true
			}
		}
	}
	t := mk("slice", x.Type(), sb, lo, h)
	// length = h - lo
	bl, ol := linear(lo)
	if bl == nil {
		bh, oh := linear(h)
		if v := mkLinear(bh, oh-ol, tInt); bh != nil {
			l, hh := st.interval(v)
			st.setIv(mk("len", tInt, t), max(l, 0), max(hh, 0))
		} else {
			st.setIv(mk("len", tInt, t), oh-ol, oh-ol)
		}
	}
	return t, true
}

// tailCut recognises an upper bound of len-k where the last k parts are plain.
func (in *Interp) tailCut(st *State, ps []Part, n, hi Val) int {
	if hi == nil {
		return 0
	}
	bn, on := linear(n)
	bh, oh := linear(hi)
	if bn == nil || bh == nil || bn.Key() != bh.Key() {
		return -1
	}
	k := int(on - oh)
	if k < 0 || k > len(ps) {
		return -1
	}
	for _, p := range ps[len(ps)-k:] {
		if p.Spread {
			return -1
		}
	}
	return k
}

func orLen(hi Val, in *Interp, st *State, c Val) Val {
	if hi != nil {
		return hi
	}
	return in.lenVal(st, c)
}

func isZero(v Val) bool { i, ok := asInt(v); return ok && i == 0 }

func mapSet(st *State, mc *MapC, k, v Val) *MapC {
	n := &MapC{Base: mc.Base}
	done := false
	for _, e := range mc.E {
		if b, known := st.compare(token.EQL, e.K, k); known && b {
			n.E = append(n.E, MapEnt{k, v})
			done = true
			continue
		}
		n.E = append(n.E, e)
	}
	if !done {
		n.E = append(n.E, MapEnt{k, v})
	}
	return n
}

func (in *Interp) lookup(st *State, f *Frame, x *ssa.Lookup) (Val, bool) {
	base, k := st.resolve(in.val(st, f, x.X)), st.resolve(in.val(st, f, x.Index))
	if isString(x.X.Type()) {
		n := in.lenVal(st, base)
		if !in.boundsCheck(st, f, x, k, n, "string") {
			return nil, in.panicPath(st, "index out of range at "+in.P.Pos(x.Pos()))
		}
		if s, ok := asStr(base); ok {
			if i, ok := asInt(k); ok && i >= 0 && i < len(s) {
				return &Const{constant.MakeInt64(int64(s[i])), x.Type()}, true
			}
		}
		return mk("idx", x.Type(), stripConv(base), k), true
	}
	mt := under(x.X.Type()).(*types.Map)
	wrap := func(v Val, ok Val) Val {
		if x.CommaOk {
			return &Tuple{[]Val{v, ok}}
		}
		return v
	}
	var mc *MapC
	switch m := base.(type) {
	case *Nil:
		return wrap(zero(mt.Elem()), cBool(false)), true
	case *MapRef:
		mc, _ = st.get(m.Obj).(*MapC)
	case *Term:
		if o, ok := st.syms["map:"+m.key]; ok {
			mc, _ = st.get(o).(*MapC)
		}
	}
	if mc == nil {
		t := mk("lookup", mt.Elem(), base, k)
		return wrap(t, mk("has", tBool, base, k)), true
	}
	// newest entries last; try exact match
	for i := len(mc.E) - 1; i >= 0; i-- {
		b, known := st.compare(token.EQL, mc.E[i].K, k)
		if known && b {
			return wrap(mc.E[i].V, cBool(true)), true
		}
		if !known {
			b, ok := in.decide(st, mk("==", tBool, mc.E[i].K, k))
			if !ok {
				return nil, false
			}
			if b {
				return wrap(mc.E[i].V, cBool(true)), true
			}
		}
	}
	if mc.Base != nil {
		return wrap(mk("lookup", mt.Elem(), mc.Base, k), mk("has", tBool, mc.Base, k)), true
	}
	return wrap(zero(mt.Elem()), cBool(false)), true
}

func (in *Interp) nextIter(st *State, f *Frame, x *ssa.Next) bool {
	it, ok := in.val(st, f, x.Iter).(*IterV)
	tt := x.Type().(*types.Tuple)
	mkRes := func(ok Val, k, v Val) {
		in.setv(f, x, &Tuple{[]Val{ok, k, v}})
	}
	zeroK := func(i int) Val {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return &Nil{t}
		}
		return zero(t)
	}
	if !ok {
		mkRes(st.fresh("ok", tBool), st.fresh("k", tt.At(1).Type()), st.fresh("v", tt.At(2).Type()))
		return true
	}
	adv := &IterV{X: it.X, Pos: it.Pos + 1, Id: it.Id}
	if x.IsString {
		if s, ok := asStr(it.X); ok {
			rs := []rune(s)
			if it.Pos >= len(rs) {
				mkRes(cBool(false), zeroK(1), zeroK(2))
			} else {
				in.setv(f, x.Iter, adv)
				mkRes(cBool(true), cInt(int64(len(string(rs[:it.Pos])))), &Const{constant.MakeInt64(int64(rs[it.Pos])), types.Typ[types.Rune]})
			}
			return true
		}
		c := mk("<", tBool, cInt(int64(it.Pos)), in.lenVal(st, it.X))
		in.setv(f, x.Iter, adv)
		mkRes(c, cInt(int64(it.Pos)), mk("runeat", types.Typ[types.Rune], stripConv(it.X), cInt(int64(it.Pos))))
		return true
	}
	switch m := it.X.(type) {
	case *Nil:
		mkRes(cBool(false), zeroK(1), zeroK(2))
		return true
	case *MapRef:
		if mc, ok := st.get(m.Obj).(*MapC); ok {
			if it.Pos < len(mc.E) {
				in.setv(f, x.Iter, adv)
				mkRes(cBool(true), mc.E[it.Pos].K, mc.E[it.Pos].V)
				return true
			}
			if mc.Base == nil {
				mkRes(cBool(false), zeroK(1), zeroK(2))
				return true
			}
		}
	}
	mt, _ := under(x.Iter.(*ssa.Range).X.Type()).(*types.Map)
	if mt == nil {
		mkRes(st.fresh("ok", tBool), st.fresh("k", tt.At(1).Type()), st.fresh("v", tt.At(2).Type()))
		return true
	}
	in.setv(f, x.Iter, adv)
	n := cInt(int64(it.Pos))
	k := mk("mapkey", mt.Key(), it.X, n)
	v := mk("mapval", mt.Elem(), it.X, n)
	mkRes(mk("<", tBool, n, mk("len", tInt, it.X)), k, v)
	return true
}

func (in *Interp) typeAssert(st *State, f *Frame, x *ssa.TypeAssert) (Val, bool) {
	v := st.resolve(in.val(st, f, x.X))
	T := x.AssertedType
	good := func(r Val) Val {
		if x.CommaOk {
			return &Tuple{[]Val{r, cBool(true)}}
		}
		return r
	}
	bad := func() (Val, bool) {
		if x.CommaOk {
			return &Tuple{[]Val{zero(T), cBool(false)}}, true
		}
		in.siteOf(st, f, x, "typeassert", "type assertion to "+typeName(T)+" always fails", v, T)
		return nil, in.panicPath(st, "type assertion at "+in.P.Pos(x.Pos()))
	}
	switch i := v.(type) {
	case *Nil:
		return bad()
	case *Iface:
		if matchType(i.Dyn, T) {
			if types.IsInterface(T) {
				return good(i), true
			}
			return good(i.V), true
		}
		return bad()
	case *Term:
		c := mk("typeis", tBool, i, mk("T:"+typeName(T), T))
		b, known := st.truth(c)
		if !known {
			if !x.CommaOk {
				in.siteOf(st, f, x, "typeassert?", "type assertion to "+typeName(T)+" not proven", i, T)
				if !st.assume(c, true) {
					return nil, false
				}
				b = true
			} else {
				var ok bool
				b, ok = in.decide(st, c)
				if !ok {
					return nil, false
				}
			}
		}
		if !b {
			return bad()
		}
		if types.IsInterface(T) {
			return good(retype(i, T)), true
		}
		return good(in.dynVal(st, i, T)), true
	}
	return good(mk("assert", T, v)), true
}

// dynVal is the dynamic value of a symbolic interface known to hold a T.
func (in *Interp) dynVal(st *State, i *Term, T types.Type) Val {
	r := mk("as:"+typeName(T), T, i)
	if isNillable(T) && st.fact(r.key).Nil == 0 {
		st.setFact(r.key, Fact{Nil: 2})
	}
	return r
}

func (in *Interp) binop(st *State, f *Frame, x *ssa.BinOp) (Val, bool) {
	a, b := st.resolve(in.val(st, f, x.X)), st.resolve(in.val(st, f, x.Y))
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if r, ok := st.compare(x.Op, a, b); ok {
			return cBool(r), true
		}
		op := x.Op
		neg := false
		if op == token.NEQ {
			op, neg = token.EQL, true
		}
		if op == token.GTR || op == token.GEQ {
			a, b, op = b, a, swapOp(op)
		}
		if op == token.EQL && isTrueConst(b) {
			r := a
			if neg {
				r = mk("!", tBool, a)
			}
			return r, true
		}
		var r Val = mk(op.String(), tBool, a, b)
		if neg {
			r = mk("!", tBool, r)
		}
		return r, true
	}
	ca, oka := asConst(a)
	cb, okb := asConst(b)
	t := x.Type()
	if x.Op == token.ADD && isString(t) {
		if oka && okb {
			return &Const{constant.BinaryOp(ca.V, token.ADD, cb.V), t}, true
		}
		return catOf(t, a, b), true
	}
	if oka && okb {
		switch x.Op {
		case token.SHL, token.SHR:
			n, _ := constant.Uint64Val(cb.V)
			return &Const{constant.Shift(ca.V, x.Op, uint(n)), t}, true
		case token.QUO, token.REM:
			if constant.Sign(cb.V) == 0 {
				in.site(st, f, x, "div", "division by zero")
				return nil, in.panicPath(st, "division by zero at "+in.P.Pos(x.Pos()))
			}
			op := x.Op
			if isInteger(t) && op == token.QUO {
				op = token.QUO_ASSIGN
			}
			return &Const{constant.BinaryOp(ca.V, op, cb.V), t}, true
		default:
			return &Const{constant.BinaryOp(ca.V, x.Op, cb.V), t}, true
		}
	}
	if isInteger(t) {
		switch x.Op {
		case token.ADD, token.SUB:
			sign := int64(1)
			if x.Op == token.SUB {
				sign = -1
			}
			if x.Op == token.ADD {
				for _, v := range []Val{a, b} {
					if b, _ := linear(v); b != nil {
						if n, isT := b.(*Term); isT && n.Op == "number" {
							in.siteOf(st, f, x, "overflow?", "sum with an announced number", n, t)
						}
					}
				}
			}
			if okb {
				ba, oa := linear(a)
				_, ob := linear(b)
				return mkLinear(ba, oa+sign*ob, t), true
			}
			if oka && x.Op == token.ADD {
				bb, ob := linear(b)
				_, oa := linear(a)
				return mkLinear(bb, oa+ob, t), true
			}
			ba, oa := linear(a)
			bb, ob := linear(b)
			if x.Op == token.ADD {
				k1, k2 := ba, bb
				if k1.Key() > k2.Key() {
					k1, k2 = k2, k1
				}
				return mkLinear(mk("+", t, k1, k2), oa+ob, t), true
			}
			if ba != nil && bb != nil && ba.Key() == bb.Key() {
				return &Const{constant.MakeInt64(oa - ob), t}, true
			}
			// (p + q) - p
			if pt, ok := ba.(*Term); ok && pt.Op == "+" && len(pt.A) == 2 && bb != nil {
				if pt.A[0].Key() == bb.Key() {
					return mkLinear(pt.A[1], oa-ob, t), true
				}
				if pt.A[1].Key() == bb.Key() {
					return mkLinear(pt.A[0], oa-ob, t), true
				}
			}
			return mk("-", t, a, b), true
		case token.QUO, token.REM:
			if !okb {
				lo, hi := st.interval(b)
				if lo <= 0 && hi >= 0 {
					in.site(st, f, x, "div?", "division by possibly zero "+shortKey(b.Key()))
				}
			}
		case token.MUL:
			if b.Key() < a.Key() {
				a, b = b, a
			}
		}
	}
	return mk(x.Op.String(), t, a, b), true
}

func isTrueConst(v Val) bool { b, ok := asBool(v); return ok && b }

// ---- channels, used as queues within one goroutine

// queue is the content of a channel made on this path.
func (st *State) queue(ch Val) (q []Val, closed, ok bool) {
	t, isT := st.resolve(ch).(*Term)
	if _, conc := st.syms["go"]; !isT || conc {
		return nil, false, false
	}
	o, ok := st.syms["queue:"+t.key]
	if !ok {
		return nil, false, false
	}
	tp, ok := st.get(o).(*Tuple)
	if !ok {
		return nil, false, false
	}
	_, closed = st.syms["closed:"+t.key]
	return tp.V, closed, true
}

func (st *State) push(ch, v Val) {
	q, _, ok := st.queue(ch)
	if ok {
		st.set(st.syms["queue:"+st.resolve(ch).Key()], &Tuple{append(append([]Val(nil), q...), v)})
	}
}

// pop takes the first value of a channel; of a closed one its zero value.
func (st *State) pop(ch Val, et types.Type) (Val, bool) {
	q, _, _ := st.queue(ch)
	if len(q) == 0 {
		return zero(et), false
	}
	st.set(st.syms["queue:"+st.resolve(ch).Key()], &Tuple{append([]Val(nil), q[1:]...)})
	return q[0], true
}

// selectQueued evaluates a select over receives from known queues.
func (in *Interp) selectQueued(st *State, f *Frame, x *ssa.Select, tt *types.Tuple) Val {
	ready := -1
	for i, s := range x.States {
		if s.Dir != types.RecvOnly {
			return nil
		}
		q, closed, ok := st.queue(in.val(st, f, s.Chan))
		if !ok {
			return nil
		}
		if len(q) > 0 || closed {
			if ready >= 0 {
				return nil
			}
			ready = i
		}
	}
	if ready < 0 && x.Blocking {
		return nil
	}
	tp := &Tuple{V: []Val{cInt(int64(ready)), cBool(false)}}
	for i, s := range x.States {
		et := under(s.Chan.Type()).(*types.Chan).Elem()
		if i != ready {
			tp.V = append(tp.V, zero(et))
			continue
		}
		v, open := st.pop(in.val(st, f, s.Chan), et)
		tp.V[1] = cBool(open)
		tp.V = append(tp.V, v)
	}
	return tp
}
