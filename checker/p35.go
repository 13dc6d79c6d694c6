package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P35"] = checkP35 }

// prep watches how client operations prepare themselves.
type prep struct {
	*cli
	dobj int // the dialog's state
}

func (c *Ctx) newPrep(known bool) (*prep, *State) {
	x, st := c.newCli()
	r := &prep{cli: x}
	x.client(st)
	x.acks = benignAcks
	if known {
		st.notes["known"] = cInt(1)
	}
	// the dialog is a real object, so that what a synchronisation changes is seen
	r.dobj = structWith(st, x.d.dt, "dialog.", func(f *types.Var) Val { return nil })
	po := structWith(st, x.d.ptd, "pintan.", func(f *types.Var) Val {
		if namedOf(f.Type()) == x.d.dt {
			return &Ptr{Obj: r.dobj}
		}
		return nil
	})
	cl, _ := expand(st.get(x.obj)).(*Struct)
	for _, f := range cl.F {
		if t, ok := f.(*Term); ok {
			if p, isP := under(t.T).(*types.Pointer); isP && namedOf(p.Elem()) == x.d.ptd {
				st.syms[t.key] = po
			}
		}
	}
	r.setVersion(st, known)
	x.extra = r.answer
	return r, st
}

// setVersion stores the version of the bank parameter data.
func (r *prep) setVersion(st *State, known bool) {
	r.update(st, func(f *types.Var, v Val) Val {
		n := namedOf(f.Type())
		if n == nil || n.Obj().Name() != "BankParameterData" {
			return nil
		}
		return r.version(st, expand(r.field0(v, f.Type())), known)
	})
}

// field0 makes a struct of a symbolic one.
func (r *prep) field0(v Val, t types.Type) Val {
	if s, ok := expand(v).(*Struct); ok {
		return s
	}
	n, ok := under(t).(*types.Struct)
	if !ok {
		return v
	}
	s := &Struct{T: t, F: make([]Val, n.NumFields())}
	for i := range s.F {
		s.F[i] = sym(v.Key()+"."+n.Field(i).Name(), n.Field(i).Type())
	}
	return s
}

// version sets the version within bank parameter data.
func (r *prep) version(st *State, v Val, known bool) Val {
	s, ok := v.(*Struct)
	if !ok {
		return v
	}
	n := int64(0)
	if known {
		n = 5
	}
	out := &Struct{T: s.T, F: append([]Val(nil), s.F...)}
	for i, f := range structFields2(s.T) {
		switch {
		case f.Name() == "Version" && isInteger(f.Type()):
			out.F[i] = &Const{cInt(n).V, f.Type()}
		case f.Embedded():
			out.F[i] = r.version(st, expand(r.field0(s.F[i], f.Type())), known)
		}
	}
	return out
}

func structFields2(t types.Type) (l []*types.Var) {
	s, ok := under(t).(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		l = append(l, s.Field(i))
	}
	return
}

func (r *prep) update(st *State, set func(f *types.Var, v Val) Val) {
	s, ok := expand(st.get(r.dobj)).(*Struct)
	if !ok {
		return
	}
	out := &Struct{T: s.T, F: append([]Val(nil), s.F...)}
	for i, f := range structFields2(s.T) {
		if v := set(f, s.F[i]); v != nil {
			out.F[i] = v
		}
	}
	st.set(r.dobj, out)
}

// answer stands for the operations of the dialog that fetch data.
func (r *prep) answer(k *Call) ([]Outcome, bool) {
	if !r.isDialog(k.Callee) || strings.HasPrefix(k.Callee.Name(), "Send") {
		return nil, false
	}
	st := k.St
	rs := k.Sig.Results()
	if rs.Len() == 1 && isInteger(rs.At(0).Type()) && strings.Contains(k.Callee.Name(), "Version") {
		n := int64(0)
		if noteInt(st, "known") > 0 && !strings.Contains(k.Callee.Name(), "User") {
			n = 5 // a bank need not send user parameter data
		}
		return []Outcome{{Res: &Const{cInt(n).V, rs.At(0).Type()}}}, true
	}
	if rs.Len() == 0 || !isError(rs.At(rs.Len()-1).Type()) {
		return nil, false
	}
	pos, name := k.Instr.Pos(), k.Callee.Name()
	var good, bad []Val
	for i := 0; i < rs.Len()-1; i++ {
		good = append(good, st.fresh("sync", rs.At(i).Type()))
		bad = append(bad, zero(rs.At(i).Type()))
	}
	e := st.fresh("fault:sync", tError)
	outs := []Outcome{{Res: resOf(append(good, &Nil{tError})), Do: func(s *State) bool {
		n := bump(s, "syncs")
		if name == "SyncClientSystemID" {
			s.notes["known"] = cInt(1)
			r.setVersion(s, true)
		}
		r.update(s, func(f *types.Var, v Val) Val {
			if f.Name() == "Accounts" {
				var ps []Part
				for j := 0; j < 2; j++ {
					ps = append(ps, Part{V: sym(fmt.Sprintf("accounts:%d:%d", n, j), under(f.Type()).(*types.Slice).Elem())})
				}
				return r.in.newSlice(s, f.Type(), ps)
			}
			return nil
		})
		s.emit("sync", pos, cStr(name), cInt(int64(n)))
		return true
	}}}
	if noteInt(st, "faults") < r.faults {
		outs = append(outs, Outcome{Res: resOf(append(bad, e)), Do: func(s *State) bool {
			bump(s, "faults")
			nonNilTerm(s, e)
			s.emit("sync", pos, cStr(name), cInt(0))
			s.emit("fault:sync", pos, e)
			return true
		}})
	}
	return outs, true
}

// clientOps are the operations of a client that report errors.
func (c *Ctx) clientOps() (l []*ssa.Function) {
	T := types.NewPointer(c.P.TypeNamed("client", "Client"))
	ms := types.NewMethodSet(T)
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		rs := o.Type().(*types.Signature).Results()
		if !o.Exported() || rs.Len() == 0 || !isError(rs.At(rs.Len()-1).Type()) {
			continue
		}
		if f := c.P.MethodOpt(T, o.Name()); f != nil {
			l = append(l, f)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return
}

func checkP35(c *Ctx) {
	c.Rule("prepared", "as long as no bank parameter data is known a client operation synchronises exactly once, before anything else is sent", 7)
	c.Rule("not again", "once bank parameter data is known, an operation does not synchronise again", 7)
	c.Rule("unprepared", "if the synchronisation fails the operation fails with nothing sent", 7)
	c.Rule("accounts", "the accounts returned are those the dialog holds after they were fetched anew", 2)
	c.Rule("anonymous", "anonymous requests need no synchronisation", 1)
	c.Rule("version", "a client is made exactly if the protocol version, the configured one or else the directory's, is one the library speaks", 12)
	for _, fn := range c.clientOps() {
		c.judgePrep(fn)
	}
	c.judgeAnonymous()
	c.judgeVersions()
}

func (r *prep) versions(op string) {
	id := orderOf[op]
	r.listed = nil
	if id == "" {
		return
	}
	for v := int64(1); v <= 9; v++ {
		r.listed = append(r.listed, vseg{paramsID(id), v})
	}
}

// trace is what a path did with the bank.
func trace(p Path) (client, other, orders int, first, late string) {
	for _, e := range p.St.Events() {
		switch e.Kind {
		case "sync":
			n, _ := asStr(e.Args[0])
			if first == "" {
				first = n
			}
			if n == "SyncClientSystemID" {
				client++
				if orders+other > 0 {
					late = "the synchronisation comes too late"
				}
			} else {
				other++
			}
		case "order":
			orders++
			if first == "" {
				first = "order"
			}
		}
	}
	return
}

func (c *Ctx) judgePrep(fn *ssa.Function) {
	op := fn.Name()
	where := c.P.Pos(fn.Pos())
	for _, known := range []bool{false, true} {
		r, st := c.newPrep(known)
		r.versions(op)
		ps := r.run(st, op, clientArgs(st, fn).vals...)
		done := 0
		for round := 0; round < 2; round++ {
			lab := op
			if round > 0 {
				lab += ", called again"
			}
			var next []*State
			for _, p := range ps {
				if p.Kind != "return" {
					continue
				}
				sc, other, orders, _, late := trace(p)
				if known || round > 0 {
					c.Check("not again", lab, sc == 0, where, "%d synchronisations although bank parameter data is known", sc)
				} else if p.success() || orders+other > 0 {
					c.Check("prepared", lab, sc == 1 && late == "", where, "%s", orElse(late, fmt.Sprintf("%d synchronisations", sc)))
				}
				if !p.success() {
					continue
				}
				done++
				if orders == 0 {
					c.judgeAccounts(r, lab, p, where)
				}
				s := p.St
				s.frames, s.events = nil, nil
				next = append(next, s)
			}
			if round > 0 {
				break
			}
			if len(next) > 3 {
				next = next[:3]
			}
			ps = nil
			for _, s := range next {
				ps = append(ps, r.run(s, op, clientArgs(s, fn).vals...)...)
			}
		}
		c.Check("prepared", op+" can succeed", done > 0, where, "no successful execution")
	}
	r, st := c.newPrep(false)
	r.faults = 1
	r.versions(op)
	failed := 0
	for _, p := range r.run(st, op, clientArgs(st, fn).vals...) {
		fault := false
		for i, e := range p.St.Events() {
			fault = fault || e.Kind == "fault:sync" && i <= 1
		}
		if !fault || p.Kind != "return" {
			continue
		}
		failed++
		_, other, orders, _, _ := trace(p)
		c.Check("unprepared", op, p.failed() && orders+other == 0, where, "after a failed synchronisation the operation goes on")
	}
	c.Check("unprepared", op+" synchronises", failed > 0, where, "no synchronisation can fail")
}

// judgeAccounts judges an operation that orders nothing.
func (c *Ctx) judgeAccounts(r *prep, lab string, p Path, where string) {
	if len(p.Res) != 2 {
		return
	}
	n := 0
	for _, e := range p.St.Events() {
		if e.Kind == "sync" {
			if s, _ := asStr(e.Args[0]); s != "SyncClientSystemID" {
				n, _ = asInt(e.Args[1])
			}
		}
	}
	got := p.St.resolve(p.Res[0])
	ps, ok := r.in.parts(p.St, got)
	if !ok && !isNil(got) {
		c.Check("accounts", lab, false, where, "the accounts returned are not a list that is known: %s", cut(got.Key()))
		return
	}
	good := n > 0 && len(ps) == 2
	var have []string
	for j, q := range ps {
		v := p.St.resolve(q.V)
		have = append(have, cut(r.in.deep(p.St, v).Key()))
		good = good && !q.Spread && stripVal(r.in.deep(p.St, v)).Key() == stripVal(r.in.deep(p.St, sym(fmt.Sprintf("accounts:%d:%d", n, j), valType(v)))).Key()
	}
	c.Check("accounts", lab, good, where, "the accounts returned are %s after %d answers", strings.Join(have, ", "), n)
}

func (c *Ctx) judgeAnonymous() {
	n := c.P.TypeNamed("client", "AnonymousClient")
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		o := ms.At(i).Obj()
		if !o.Exported() || len(ms.At(i).Index()) > 1 {
			continue
		}
		fn := c.P.MethodOpt(types.NewPointer(n), o.Name())
		if fn == nil {
			continue
		}
		r, st := c.newPrep(false)
		var as []Val
		for _, p := range fn.Params[1:] {
			as = append(as, sym("arg:"+p.Name(), p.Type()))
		}
		done := 0
		for _, p := range r.run(st, o.Name(), as...) {
			sc, other, orders, _, _ := trace(p)
			if p.Kind != "return" || orders == 0 {
				continue
			}
			done++
			c.Check("anonymous", o.Name(), sc+other == 0, c.P.Pos(fn.Pos()), "an anonymous request synchronises first")
		}
		c.Check("anonymous", o.Name()+" can be sent", done > 0, c.P.Pos(fn.Pos()), "nothing is sent")
	}
}

// judgeVersions checks for which versions a client is made.
func (c *Ctx) judgeVersions() {
	p := c.P
	fn := p.Func("client", "New")
	where := p.Pos(fn.Pos())
	spoken := map[int64]bool{220: true, 300: true}
	for _, cfg := range []int64{-1, 0, 1, 201, 210, 220, 300, 400} {
		for _, listed := range []int64{0, 201, 220, 300} {
			if cfg > 0 && listed == 201 {
				continue
			}
			lab := fmt.Sprintf("configured %d, listed %d", cfg, listed)
			st := p.NewState()
			o := structWith(st, p.TypeNamed("client", "Config"), "config.", func(f *types.Var) Val {
				switch f.Name() {
				case "HBCIVersion":
					return &Const{cInt(cfg).V, f.Type()}
				case "URL":
					return cStr("https://bank.example")
				}
				return nil
			})
			in := NewInterp(p)
			in.MaxFork = 1
			in.ConvFork = false
			in.Hook = func(k *Call) ([]Outcome, bool) {
				if k.Callee == nil {
					return nil, false
				}
				switch k.Callee.Name() {
				case "FindByBankID":
					return []Outcome{{Res: mk("bankinfo", k.Sig.Results().At(0).Type(), k.St.resolve(k.Args[0]))}}, true
				case "HbciVersion":
					return []Outcome{{Res: &Const{cInt(listed).V, k.Sig.Results().At(0).Type()}}}, true
				case "NewPinTanDialog":
					v := k.In.deep(k.St, k.Args[0])
					r := k.St.fresh("dialog", k.Sig.Results().At(0).Type())
					return []Outcome{{Res: r, Do: func(s *State) bool {
						nonNilTerm(s, r)
						s.emit("dialog", k.Instr.Pos(), v)
						return true
					}}}, true
				case "SetPin":
					return []Outcome{{}}, true
				}
				return nil, false
			}
			want := cfg
			if cfg <= 0 {
				want = listed
			}
			n := 0
			for _, q := range in.Run(st, fn, st.get(o)) {
				if q.Kind != "return" {
					c.Check("version", lab, false, q.Where, "ends with %s", q.Kind)
					continue
				}
				n++
				if cfg < 0 && !q.success() {
					continue // refusing a version below zero is as good
				}
				c.Check("version", lab, q.success() == spoken[want] && q.failed() != spoken[want], where, "success is %v for version %d", q.success(), want)
			}
			c.use(in)
			c.Check("version", lab+" is decided", n > 0, where, "no execution found")
		}
	}
}
