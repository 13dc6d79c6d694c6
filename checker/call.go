package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) mkDeferred(st *State, f *Frame, x *ssa.Defer) deferred {
	c := x.Common()
	d := deferred{common: c, instr: x}
	if c.IsInvoke() {
		d.recv = in.val(st, f, c.Value)
		d.method = c.Method
	} else {
		d.fnv = in.val(st, f, c.Value)
	}
	for _, a := range c.Args {
		d.args = append(d.args, in.val(st, f, a))
	}
	return d
}

func (in *Interp) runDeferred(st *State, f *Frame, d deferred) bool {
	return in.dispatch(st, f, d.instr, d.common, d.recv, d.fnv, d.args, true)
}

func (in *Interp) call(st *State, f *Frame, instr ssa.Instruction, c *ssa.CallCommon, res ssa.Value) bool {
	var recv, fnv Val
	if c.IsInvoke() {
		recv = in.val(st, f, c.Value)
	} else {
		fnv = in.val(st, f, c.Value)
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, in.val(st, f, a))
	}
	return in.dispatch(st, f, instr, c, recv, fnv, args, false)
}

// apply installs outcomes of a modelled call.
func (in *Interp) apply(st *State, f *Frame, instr ssa.Instruction, outs []Outcome, isDefer bool) bool {
	if len(outs) == 0 {
		return false
	}
	states := make([]*State, len(outs))
	states[0] = st
	for i := 1; i < len(outs); i++ {
		states[i] = st.clone()
		states[i].forkn++
	}
	cont := false
	for i := len(outs) - 1; i >= 0; i-- {
		s := states[i]
		o := outs[i]
		if o.Do != nil && !o.Do(s) {
			continue
		}
		if o.Panic != "" {
			in.finish(Path{Kind: o.Panic, St: s, Where: in.P.Pos(instr.Pos())})
			continue
		}
		fr := s.frames[len(s.frames)-1]
		if !isDefer {
			if v, ok := instr.(ssa.Value); ok {
				r := o.Res
				if r == nil {
					r = &Tuple{}
				}
				in.setv(fr, v, r)
			}
			fr.pc++
		}
		if i == 0 {
			cont = true
		} else {
			in.work = append(in.work, s)
		}
	}
	return cont
}

func (in *Interp) dispatch(st *State, f *Frame, instr ssa.Instruction, c *ssa.CallCommon, recv, fnv Val, args []Val, isDefer bool) bool {
	sig := c.Signature()
	var callee *ssa.Function
	var bind []Val
	call := &Call{In: in, St: st, Args: args, Sig: sig, Instr: instr}
	if c.IsInvoke() {
		recv = st.resolve(recv)
		call.Method = c.Method
		call.Name = c.Method.FullName()
		switch r := recv.(type) {
		case *Nil:
			in.site(st, f, instr, "nilderef", "method call on nil interface")
			return in.panicPath(st, "nil interface call at "+in.P.Pos(instr.Pos()))
		case *Iface:
			callee = in.P.SSA.LookupMethod(r.Dyn, c.Method.Pkg(), c.Method.Name())
			args = append([]Val{r.V}, args...)
		case *Term:
			if ft := st.fact(r.key).Typ; ft != nil {
				callee = in.P.SSA.LookupMethod(ft, c.Method.Pkg(), c.Method.Name())
				args = append([]Val{in.dynVal(st, r, ft)}, args...)
			} else if st.nilness(r) == 0 {
				if in.CheckNil {
					in.siteOf(st, f, instr, "nilderef", "method call on possibly nil interface "+shortKey(r.key), r, nil)
				}
				fc := st.fact(r.key)
				fc.Nil = 2
				st.setFact(r.key, fc)
			}
		}
		call.Recv = recv
		call.Args = args
	} else {
		switch v := st.resolve(fnv).(type) {
		case *Closure:
			callee, bind = v.Fn, v.Bind
		case *Nil:
			in.site(st, f, instr, "nilderef", "call of nil function")
			return in.panicPath(st, "nil func call at "+in.P.Pos(instr.Pos()))
		case *Term:
			if strings.HasPrefix(v.Op, "builtin:") {
				return in.builtin(st, f, instr, strings.TrimPrefix(v.Op, "builtin:"), c, args, isDefer)
			}
			call.Recv = v
			call.Name = "dynamic"
		}
	}
	if callee != nil {
		call.Callee = callee
		call.Name = callee.String()
		if callee.Origin() != nil {
			call.Name = callee.Origin().String()
		}
	}
	if in.Hook != nil {
		if outs, ok := in.Hook(call); ok {
			return in.apply(st, f, instr, outs, isDefer)
		}
	}
	if callee != nil && len(callee.Blocks) == 0 && callee.Synthetic != "" {
		// wrappers are built lazily
	}
	if callee != nil && len(callee.Blocks) > 0 && (in.Inline == nil || in.Inline(callee)) {
		depth := len(st.frames)
		rec := 0
		for _, fr := range st.frames {
			if fr.fn == callee {
				rec++
			}
		}
		if depth < in.MaxDepth && rec < in.MaxRec {
			in.pushFrame(st, callee, args, bind, instr)
			st.frames[len(st.frames)-1].isDefer = isDefer
			return true
		}
		in.Truncated++
		in.finish(Path{Kind: "trunc", St: st, Where: "recursion bound at " + callee.String()})
		return false
	}
	outs := in.model(call)
	return in.apply(st, f, instr, outs, isDefer)
}

// deep replaces references to known objects by their content, for use in terms.
func (in *Interp) deep(st *State, v Val) Val { return in.deepN(st, v, in.DeepN, map[int]bool{}) }

func (in *Interp) deepN(st *State, v Val, n int, seen map[int]bool) Val {
	v = st.resolve(v)
	if n == 0 {
		return v
	}
	switch x := v.(type) {
	case *Ptr:
		if seen[x.Obj] {
			return x
		}
		seen[x.Obj] = true
		defer delete(seen, x.Obj)
		c, ok := getPath(st.get(x.Obj), x.Path)
		if !ok || c == nil {
			return x
		}
		if t, ok := c.(*Term); ok && t.Op == "*" {
			return t.A[0]
		}
		return mk("&", types.NewPointer(orInvalid(valType(c))), in.deepN(st, c, n-1, seen))
	case *Struct:
		s := &Struct{T: x.T}
		for _, f := range x.F {
			s.F = append(s.F, in.deepN(st, f, n-1, seen))
		}
		return s
	case *Slice:
		if isByteSlice(x.T) {
			return in.bytesTerm(st, x)
		}
		ps, ok := in.parts(st, x)
		if !ok {
			return x
		}
		s := &Seq{}
		for _, p := range ps {
			s.P = append(s.P, Part{in.deepN(st, p.V, n-1, seen), p.Spread})
		}
		return s
	case *Iface:
		return &Iface{x.Dyn, in.deepN(st, x.V, n, seen)}
	case *MapRef:
		if mc, ok := st.get(x.Obj).(*MapC); ok {
			m := &MapC{Base: mc.Base}
			for _, e := range mc.E {
				m.E = append(m.E, MapEnt{in.deepN(st, e.K, n-1, seen), in.deepN(st, e.V, n-1, seen)})
			}
			sort.SliceStable(m.E, func(i, j int) bool { return m.E[i].K.Key() < m.E[j].K.Key() })
			return m
		}
	}
	return v
}

func orInvalid(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return t
}

func (in *Interp) builtin(st *State, f *Frame, instr ssa.Instruction, name string, c *ssa.CallCommon, args []Val, isDefer bool) bool {
	one := func(v Val) bool { return in.apply(st, f, instr, []Outcome{{Res: v}}, isDefer) }
	switch name {
	case "len":
		return one(in.lenVal(st, args[0]))
	case "cap":
		return one(mk("cap", tInt, in.deep(st, args[0])))
	case "append":
		return one(in.appendVal(st, args[0], args[1], c.Args[0].Type()))
	case "copy":
		return one(in.copyVal(st, args[0], args[1]))
	case "delete":
		if mr, ok := st.resolve(args[0]).(*MapRef); ok {
			if mc, ok := st.get(mr.Obj).(*MapC); ok {
				n := &MapC{Base: mc.Base}
				for _, e := range mc.E {
					if b, known := st.compare(token.EQL, e.K, args[1]); known && b {
						continue
					}
					n.E = append(n.E, e)
				}
				st.set(mr.Obj, n)
			}
		}
		return one(nil)
	case "close":
		if _, _, ok := st.queue(args[0]); ok {
			st.syms["closed:"+st.resolve(args[0]).Key()] = 1
		}
		return one(nil)
	case "print", "println":
		return one(nil)
	case "recover":
		return one(&Nil{types.NewInterfaceType(nil, nil)})
	case "ssa:wrapnilchk":
		v := st.resolve(args[0])
		if isNil(v) {
			return in.panicPath(st, "nil receiver at "+in.P.Pos(instr.Pos()))
		}
		return one(v)
	case "min", "max":
		if len(c.Args) == 2 {
			op := token.LSS
			if b, ok := st.compare(op, args[0], args[1]); ok {
				if b == (name == "min") {
					return one(args[0])
				}
				return one(args[1])
			}
		}
	}
	var t types.Type = types.Typ[types.Invalid]
	if v, ok := instr.(ssa.Value); ok {
		t = v.Type()
	}
	return one(mk("builtin:"+name, t, args...))
}

func (in *Interp) appendVal(st *State, dst, src Val, t types.Type) Val {
	dst, src = st.resolve(dst), st.resolve(src)
	if isByteSlice(t) {
		d, s := in.bytesTerm(st, dst), in.bytesTerm(st, src)
		if isNil(d) && isNil(s) {
			return d
		}
		r := catOf(t, d, s)
		if rt, ok := r.(*Term); ok && st.fact(rt.key).Nil == 0 && !isNil(d) {
			if _, isC := stripConv(rt).(*Const); isC {
				st.setFact(rt.key, Fact{Nil: 2})
			}
		}
		return r
	}
	dp, ok1 := in.parts(st, dst)
	sp, ok2 := in.parts(st, src)
	if !ok1 || !ok2 {
		return mk("append", t, in.deep(st, dst), in.deep(st, src))
	}
	ps := append(append([]Part(nil), dp...), sp...)
	if len(ps) == 0 {
		return dst
	}
	return in.newSlice(st, t, ps)
}

func (in *Interp) copyVal(st *State, dst, src Val) Val {
	dst, src = st.resolve(dst), st.resolve(src)
	ld, ls := in.lenVal(st, dst), in.lenVal(st, src)
	if isZero(ld) || isZero(ls) {
		return cInt(0)
	}
	sl, ok := dst.(*Slice)
	eq, known := st.compare(token.EQL, ld, ls)
	if ok {
		sp, ok2 := in.parts(st, src)
		if isString(orInvalid(valType(src))) {
			sp, ok2 = []Part{{V: src, Spread: true}}, true
		}
		sq, ok3 := st.get(sl.Obj).(*Seq)
		if ok2 && ok3 && known && eq && sl.Lo == 0 && (sl.Hi < 0 || sl.Hi >= len(sq.P)) {
			st.set(sl.Obj, &Seq{P: append([]Part(nil), sp...)})
			// window now spans the new content
			return ls
		}
		// a shorter destination takes the first elements only
		if nd, isN := asInt(ld); ok2 && ok3 && isN && sl.Lo == 0 && (sl.Hi < 0 || sl.Hi >= len(sq.P)) && nd < len(sp) {
			plain := true
			for _, p := range append(append([]Part(nil), sp[:nd]...), sq.P...) {
				plain = plain && !p.Spread
			}
			if plain && len(sq.P) == nd {
				st.set(sl.Obj, &Seq{P: append([]Part(nil), sp[:nd]...)})
				return ld
			}
		}
		// a longer one keeps its other elements
		if ns, isN := asInt(ls); ok2 && ok3 && isN && sl.Lo == 0 && (sl.Hi < 0 || sl.Hi >= len(sq.P)) && ns == len(sp) && ns < len(sq.P) {
			plain := true
			for _, p := range append(append([]Part(nil), sp...), sq.P...) {
				plain = plain && !p.Spread
			}
			if plain {
				st.set(sl.Obj, &Seq{P: append(append([]Part(nil), sp...), sq.P[ns:]...)})
				return ls
			}
		}
		// constant window into an array
		if ok2 && known && eq {
			if c, ok := st.get(sl.Obj).(*Struct); ok {
				n := &Struct{T: c.T, F: append([]Val(nil), c.F...)}
				plain := true
				for _, p := range sp {
					plain = plain && !p.Spread
				}
				if plain && sl.Lo+len(sp) <= len(n.F) {
					for i, p := range sp {
						n.F[sl.Lo+i] = p.V
					}
					st.set(sl.Obj, n)
					return ls
				}
			}
		}
		if c := st.get(sl.Obj); c != nil {
			t := mk("copied", sl.T, c, in.deep(st, src))
			if ok3 {
				st.set(sl.Obj, &Seq{P: []Part{{V: t, Spread: true}}})
			}
		}
	}
	if known && eq {
		return ls
	}
	if b, ok := st.compare(token.LSS, ld, ls); ok {
		if b {
			return ld
		}
		return ls
	}
	return mk("min", tInt, ld, ls)
}

// ---- models of code outside the repository ----

func tuple(vs ...Val) Val {
	if len(vs) == 1 {
		return vs[0]
	}
	return &Tuple{vs}
}

func (in *Interp) deepArgs(c *Call) []Val {
	var a []Val
	if c.Callee == nil && c.Recv != nil {
		a = append(a, in.deep(c.St, c.Recv))
	}
	for _, x := range c.Args {
		a = append(a, in.deep(c.St, x))
	}
	return a
}

var impurePkg = map[string]bool{"time.Now": true}

func isImpure(name string) bool {
	for _, p := range []string{"time.Now", "time.Since", "time.Until", "math/rand", "crypto/rand", "os.", "net/http", "io.", "io/ioutil", "bufio", "(*net/http", "(*os", "(*bufio", "(*math/rand", "(io.", "(net/http"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// variadic returns the elements of a trailing variadic argument.
func (in *Interp) variadic(st *State, v Val) ([]Val, bool) {
	ps, ok := in.parts(st, v)
	if !ok {
		return nil, false
	}
	var out []Val
	for _, p := range ps {
		if p.Spread {
			return nil, false
		}
		out = append(out, p.V)
	}
	return out, true
}

// sprintf expands a constant format into a concatenation where verbs are simple.
func (in *Interp) sprintf(st *State, format Val, args Val) Val {
	f, ok := asStr(st.resolve(format))
	as, ok2 := in.variadic(st, args)
	if !ok || !ok2 {
		return mk("sprintf", tString, in.deep(st, format), in.deep(st, args))
	}
	var out []Val
	lit := ""
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		j := i + 1
		for j < len(f) && strings.ContainsRune("+-# 0123456789.[]*", rune(f[j])) {
			j++
		}
		if j >= len(f) {
			lit += f[i:]
			break
		}
		verb := f[i : j+1]
		if f[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		out = append(out, cStr(lit))
		lit = ""
		if ai >= len(as) {
			out = append(out, mk("missing:"+verb, tString))
			i = j
			continue
		}
		a := as[ai]
		ai++
		var inner Val = a
		if ic, ok := a.(*Iface); ok {
			inner = ic.V
		}
		inner = st.resolve(inner)
		tt := valType(inner)
		plain := tt != nil && (isString(tt) || isByteSlice(tt)) && methodless(a)
		if sl, ok := inner.(*Slice); ok && isByteSlice(sl.T) {
			inner = in.bytesTerm(st, sl)
			plain = true
		}
		if (verb == "%s" || verb == "%v" && tt != nil && isString(tt)) && plain {
			out = append(out, inner)
		} else if (verb == "%d" || verb == "%v") && tt != nil && isInteger(tt) && methodless(a) {
			if n, ok := asInt(inner); ok {
				out = append(out, cStr(fmt.Sprint(n)))
			} else {
				out = append(out, mk("itoa", tString, inner))
			}
		} else if n, ok := asInt(inner); ok && f[j] == 'd' && methodless(a) {
			out = append(out, cStr(fmt.Sprintf(verb, n)))
		} else {
			out = append(out, mk("fmt:"+verb, tString, in.deep(st, a)))
		}
		i = j
	}
	out = append(out, cStr(lit))
	return catOf(tString, out...)
}

// methodless reports that the value has no String/Error method.
func methodless(v Val) bool {
	ic, ok := v.(*Iface)
	if !ok {
		return false
	}
	for _, m := range []string{"String", "Error"} {
		o, _, _ := types.LookupFieldOrMethod(ic.Dyn, true, nil, m)
		if _, isF := o.(*types.Func); isF {
			return false
		}
	}
	return true
}

// bufContent reads the modelled content of a bytes.Buffer / strings.Builder.
func (in *Interp) bufContent(st *State, p Val) (int, []int, Val, bool) {
	p = st.resolve(p)
	if ic, ok := p.(*Iface); ok {
		p = ic.V
	}
	pt, ok := p.(*Ptr)
	if !ok {
		if t, ok2 := p.(*Term); ok2 {
			o, known := st.syms[t.key]
			if !known {
				pty, ok3 := under(t.T).(*types.Pointer)
				if !ok3 {
					return 0, nil, nil, false
				}
				o = st.alloc(mk("buf", pty.Elem(), mk("bufcontent", tBytes, t)))
				st.syms[t.key] = o
			}
			pt = &Ptr{Obj: o}
		} else {
			return 0, nil, nil, false
		}
	}
	c, ok := getPath(st.get(pt.Obj), pt.Path)
	if !ok {
		return 0, nil, nil, false
	}
	if t, ok := c.(*Term); ok && t.Op == "buf" {
		return pt.Obj, pt.Path, t.A[0], true
	}
	if _, ok := c.(*Struct); ok {
		return pt.Obj, pt.Path, cStr(""), true
	}
	if t, ok := c.(*Term); ok {
		return pt.Obj, pt.Path, mk("bufcontent", tBytes, t), true
	}
	return 0, nil, nil, false
}

func (in *Interp) bufAppend(st *State, p Val, v Val) bool {
	o, path, c, ok := in.bufContent(st, p)
	if !ok {
		return false
	}
	var T types.Type = types.Typ[types.Invalid]
	if cur, ok := getPath(st.get(o), path); ok {
		T = orInvalid(valType(cur))
	}
	n, ok := setPath(st.get(o), path, mk("buf", T, catOf(tBytes, c, in.bytesTerm(st, v))))
	if ok {
		st.set(o, n)
	}
	return ok
}

func isBufType(name string) bool {
	return strings.HasPrefix(name, "(*bytes.Buffer).") || strings.HasPrefix(name, "(*strings.Builder).")
}

func derefBufIface(v Val) bool {
	ic, ok := v.(*Iface)
	if !ok {
		return false
	}
	s := ic.Dyn.String()
	return s == "*bytes.Buffer" || s == "*strings.Builder"
}

func nonNilTerm(st *State, t *Term) *Term {
	f := st.fact(t.key)
	f.Nil = 2
	st.setFact(t.key, f)
	return t
}

func (in *Interp) model(c *Call) []Outcome {
	st := c.St
	n := c.Name
	one := func(v Val) []Outcome { return []Outcome{{Res: v}} }
	arg := func(i int) Val {
		if i < len(c.Args) {
			return st.resolve(c.Args[i])
		}
		return &Nil{tString}
	}
	nilErr := &Nil{tError}
	if isSortCall(n) {
		if o, ok := in.sortModel(c); ok {
			return o
		}
	}
	switch n {
	case "sort.Search":
		if k, ok := asInt(arg(0)); ok && k < 64 {
			for i := 0; i < k; i++ {
				v, ok := in.nested(st, c.Args[1], nil, cInt(int64(i)))
				if !ok {
					return nil
				}
				hit, known := st.truth(v)
				if !known {
					return nil
				}
				if hit {
					return one(cInt(int64(i)))
				}
			}
			return one(cInt(int64(k)))
		}
	case "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf":
		switch st.nilness(arg(0)) {
		case 1:
			return one(nilErr)
		case 2:
			return one(nonNilTerm(st, mk("newerr", tError, in.deepArgs(c)...)))
		}
	case "log.New":
		return one(nonNilTerm(st, mk("call:log.New", c.Sig.Results().At(0).Type(), c.Args...)))
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		return one(nonNilTerm(st, mk("newerr", tError, in.deepArgs(c)...)))
	case "fmt.Sprintf":
		return one(in.sprintf(st, c.Args[0], c.Args[1]))
	case "fmt.Fprintf":
		if derefBufIface(arg(0)) {
			s := in.sprintf(st, c.Args[1], c.Args[2])
			in.bufAppend(st, arg(0), s)
			return one(tuple(in.lenVal(st, s), nilErr))
		}
	case "fmt.Fprint", "fmt.Fprintln":
		if as, ok := in.variadic(st, arg(1)); ok && derefBufIface(arg(0)) {
			var vs []Val
			for i, a := range as {
				if i > 0 && n == "fmt.Fprintln" {
					vs = append(vs, cStr(" "))
				}
				if ic, ok := a.(*Iface); ok && isString(ic.Dyn) {
					vs = append(vs, ic.V)
				} else {
					vs = append(vs, mk("fmt:%v", tString, in.deep(st, a)))
				}
			}
			if n == "fmt.Fprintln" {
				vs = append(vs, cStr("\n"))
			}
			s := catOf(tString, vs...)
			in.bufAppend(st, arg(0), s)
			return one(tuple(in.lenVal(st, s), nilErr))
		}
	case "io.WriteString":
		if derefBufIface(arg(0)) {
			in.bufAppend(st, arg(0), arg(1))
			return one(tuple(in.lenVal(st, arg(1)), nilErr))
		}
	case "bytes.Clone", "slices.Clone":
		if ps, ok := in.parts(st, arg(0)); ok {
			if isNil(arg(0)) {
				return one(arg(0))
			}
			return one(in.newSlice(st, c.Sig.Results().At(0).Type(), append([]Part(nil), ps...)))
		}
	case "strings.Clone":
		return one(arg(0))
	case "bytes.NewBuffer", "bytes.NewBufferString":
		pt := c.Sig.Results().At(0).Type()
		return one(&Ptr{Obj: st.alloc(mk("buf", under(pt).(*types.Pointer).Elem(), in.bytesTerm(st, arg(0))))})
	case "strings.Join", "bytes.Join":
		ps, ok := in.parts(st, arg(0))
		if ok {
			plain := true
			for _, p := range ps {
				plain = plain && !p.Spread
			}
			if plain {
				var vs []Val
				for i, p := range ps {
					if i > 0 {
						vs = append(vs, in.bytesTerm(st, arg(1)))
					}
					vs = append(vs, in.bytesTerm(st, p.V))
				}
				t := tString
				var tt types.Type = t
				if n == "bytes.Join" {
					tt = tBytes
				}
				return one(catOf(tt, vs...))
			}
		}
	case "strconv.Itoa":
		if i, ok := asInt(arg(0)); ok {
			return one(cStr(fmt.Sprint(i)))
		}
		return one(mk("itoa", tString, arg(0)))
	case "bytes.Equal":
		return one(in.eqTerm(st, in.bytesTerm(st, arg(0)), in.bytesTerm(st, arg(1))))
	case "reflect.ValueOf":
		return one(mk("reflectval", c.Sig.Results().At(0).Type(), arg(0)))
	case "(reflect.Value).IsNil":
		if t, ok := arg(0).(*Term); ok && t.Op == "reflectval" {
			v := st.resolve(t.A[0])
			if ic, ok := v.(*Iface); ok {
				v = st.resolve(ic.V)
				switch st.nilness(v) {
				case 1:
					return one(cBool(true))
				case 2:
					return one(cBool(false))
				}
				return one(mk("==", tBool, v, &Nil{orInvalid(valType(v))}))
			}
			if it, ok := v.(*Term); ok {
				return one(mk("innernil", tBool, it))
			}
		}
	case "(reflect.Value).IsValid":
		return one(cBool(true))
	case "reflect.TypeOf":
		if ic, ok := arg(0).(*Iface); ok {
			return one(mk("rtype", c.Sig.Results().At(0).Type(), mk("T:"+typeName(ic.Dyn), ic.Dyn)))
		}
	case "reflect.New":
		if t, ok := arg(0).(*Term); ok && t.Op == "rtype" {
			T := t.A[0].(*Term).T
			return one(mk("reflectval", c.Sig.Results().At(0).Type(), &Iface{types.NewPointer(T), &Ptr{Obj: st.alloc(zero(T))}}))
		}
	case "(reflect.Value).Interface":
		if t, ok := arg(0).(*Term); ok && t.Op == "reflectval" {
			return one(t.A[0])
		}
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "runtime.Goexit", "(*log.Logger).Fatal", "(*log.Logger).Fatalf":
		return []Outcome{{Panic: "exit"}}
	case "log.Panic", "log.Panicf":
		return []Outcome{{Panic: "panic"}}
	case "strings.Repeat":
	case "strings.HasPrefix", "bytes.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.EqualFold":
		a, ok1 := asStr(stripConv(arg(0)))
		b, ok2 := asStr(stripConv(arg(1)))
		if ok1 && ok2 {
			switch n {
			case "strings.HasPrefix", "bytes.HasPrefix":
				return one(cBool(strings.HasPrefix(a, b)))
			case "strings.HasSuffix":
				return one(cBool(strings.HasSuffix(a, b)))
			case "strings.Contains":
				return one(cBool(strings.Contains(a, b)))
			case "strings.EqualFold":
				return one(cBool(strings.EqualFold(a, b)))
			}
		}
		if n == "strings.HasPrefix" || n == "bytes.HasPrefix" || n == "strings.HasSuffix" {
			t := mk("call:"+n, tBool, in.deepArgs(c)...)
			if b, ok := asBool(st.resolve(t)); ok {
				return one(cBool(b))
			}
			lb := in.lenVal(st, arg(1))
			la := in.lenVal(st, arg(0))
			return []Outcome{
				{Res: cBool(true), Do: func(s *State) bool { return s.assume(t, true) && s.assume(mk("<=", tBool, lb, la), true) }},
				{Res: cBool(false), Do: func(s *State) bool { return s.assume(t, false) }},
			}
		}
	case "strings.Index", "bytes.Index", "strings.IndexByte", "bytes.IndexByte", "strings.LastIndex", "bytes.LastIndex", "strings.IndexRune", "strings.IndexAny", "bytes.IndexRune", "bytes.IndexAny", "bytes.LastIndexByte", "bytes.IndexFunc", "strings.IndexFunc":
		t := mk("call:"+n, tInt, in.deepArgs(c)...)
		_, hi := st.interval(in.lenVal(st, arg(0)))
		st.setIv(t, -1, max(hi-1, -1))
		st.assume(mk("<", tBool, t, in.lenVal(st, arg(0))), true)
		return one(st.resolve(t))
	case "strings.SplitN", "bytes.SplitN":
		t := mk("call:"+n, c.Sig.Results().At(0).Type(), in.deepArgs(c)...)
		if k, ok := asInt(arg(2)); ok {
			lo, hi := int64(1), int64(1)<<40
			if k == 0 {
				lo, hi = 0, 0
			} else if k > 0 {
				hi = int64(k)
			}
			st.setIv(mk("len", tInt, t), lo, hi)
		}
		return one(t)
	case "strings.Split", "bytes.Split":
		t := mk("call:"+n, c.Sig.Results().At(0).Type(), in.deepArgs(c)...)
		st.setIv(mk("len", tInt, t), 1, 1<<40)
		return one(t)
	case "strings.TrimSpace", "strings.ToUpper", "strings.ToLower":
		if a, ok := asStr(arg(0)); ok {
			switch n {
			case "strings.TrimSpace":
				return one(cStr(strings.TrimSpace(a)))
			case "strings.ToUpper":
				return one(cStr(strings.ToUpper(a)))
			case "strings.ToLower":
				return one(cStr(strings.ToLower(a)))
			}
		}
	}
	if n == "(*strings.Replacer).Replace" && len(c.Args) == 2 {
		a, ok1 := asStr(arg(1))
		t, ok2 := arg(0).(*Term)
		if ok1 && ok2 && strings.HasSuffix(t.Op, "strings.NewReplacer") && len(t.A) == 1 {
			if sq, ok := in.deep(st, t.A[0]).(*Seq); ok {
				var l []string
				for _, pt := range sq.P {
					s, isS := asStr(pt.V)
					if !isS || pt.Spread {
						l = nil
						break
					}
					l = append(l, s)
				}
				if len(l) > 0 && len(l)%2 == 0 {
					return one(cStr(strings.NewReplacer(l...).Replace(a)))
				}
			}
		}
	}
	if isBufType(n) {
		m := n[strings.LastIndex(n, ".")+1:]
		o, path, content, ok := in.bufContent(st, arg(0))
		if ok {
			switch m {
			case "Write", "WriteString":
				in.bufAppend(st, arg(0), arg(1))
				return one(tuple(in.lenVal(st, arg(1)), nilErr))
			case "WriteByte":
				var b Val = mk("byte1", tBytes, arg(1))
				if i, ok := asInt(arg(1)); ok {
					b = cStr(string([]byte{byte(i)}))
				}
				in.bufAppend(st, arg(0), b)
				return one(nilErr)
			case "WriteRune":
				var b Val = mk("rune1", tBytes, arg(1))
				if i, ok := asInt(arg(1)); ok {
					b = cStr(string(rune(i)))
				}
				in.bufAppend(st, arg(0), b)
				return one(tuple(cInt(1), nilErr))
			case "String":
				return one(catOf(tString, content))
			case "Bytes":
				return one(catOf(tBytes, content))
			case "Len":
				return one(in.lenVal(st, content))
			case "Reset":
				var T types.Type = types.Typ[types.Invalid]
				if cur, ok := getPath(st.get(o), path); ok {
					T = orInvalid(valType(cur))
				}
				if nv, ok := setPath(st.get(o), path, mk("buf", T, cStr(""))); ok {
					st.set(o, nv)
				}
				return one(&Tuple{})
			case "Grow":
				return one(&Tuple{})
			}
		}
	}
	return in.opaque(c)
}

func (in *Interp) eqTerm(st *State, a, b Val) Val {
	a, b = stripConv(a), stripConv(b)
	if isNil(a) {
		a = cStr("")
	}
	if isNil(b) {
		b = cStr("")
	}
	if r, ok := st.compare(token.EQL, a, b); ok {
		return cBool(r)
	}
	return mk("==", tBool, a, b)
}

// opaque treats a call as an uninterpreted function of its arguments.
func (in *Interp) opaque(c *Call) []Outcome {
	st := c.St
	in.Opaque[c.Name]++
	args := in.deepArgs(c)
	in.havoc(c)
	op := "call:" + c.Name
	if c.Callee == nil || isImpure(c.Name) {
		st.next++
		op = fmt.Sprintf("%s#%d", op, st.next)
	}
	return in.Results(c, op, args)
}

// Results builds the fresh results of an uninterpreted call following the
// value/error convention.
func (in *Interp) Results(c *Call, op string, args []Val) []Outcome {
	st := c.St
	rs := c.Sig.Results()
	if rs.Len() == 0 {
		return []Outcome{{Res: &Tuple{}}}
	}
	var vals []*Term
	for i := 0; i < rs.Len(); i++ {
		o := op
		if rs.Len() > 1 {
			o = fmt.Sprintf("%s.%d", op, i)
		}
		t := mk(o, rs.At(i).Type(), args...)
		vals = append(vals, t)
	}
	toVals := func(s *State) []Val {
		var r []Val
		for _, v := range vals {
			r = append(r, s.resolve(v))
		}
		return r
	}
	last := vals[len(vals)-1]
	if isError(last.T) && in.ConvFork {
		switch st.nilness(last) {
		case 1:
			r := toVals(st)
			r[len(r)-1] = &Nil{tError}
			return []Outcome{{Res: tuple(r...)}}
		case 2:
			return []Outcome{{Res: tuple(toVals(st)...)}}
		}
		okv := toVals(st)
		okv[len(okv)-1] = &Nil{tError}
		bad := toVals(st)
		for i := 0; i < len(bad)-1; i++ {
			if isNillable(rs.At(i).Type()) {
				bad[i] = &Nil{rs.At(i).Type()}
			}
		}
		return []Outcome{
			{Res: tuple(okv...), Do: func(s *State) bool {
				f := s.fact(last.key)
				f.Nil = 1
				s.setFact(last.key, f)
				for i := 0; i < len(vals)-1; i++ {
					if _, isP := under(vals[i].T).(*types.Pointer); isP || types.IsInterface(vals[i].T) {
						if s.fact(vals[i].key).Nil == 0 {
							nonNilTerm(s, vals[i])
						}
					}
				}
				return true
			}},
			{Res: tuple(bad...), Do: func(s *State) bool { nonNilTerm(s, last); return true }},
		}
	}
	if isError(last.T) && !in.ConvFork {
		r := toVals(st)
		r[len(r)-1] = &Nil{tError}
		for i := 0; i < len(vals)-1; i++ {
			if isNillable(vals[i].T) {
				nonNilTerm(st, vals[i])
			}
		}
		return []Outcome{{Res: tuple(r...)}}
	}
	if rs.Len() == 1 {
		if _, isP := under(vals[0].T).(*types.Pointer); isP && c.Callee != nil && !in.P.InRepo(c.Callee) {
			// library constructors return non-nil
			if st.fact(vals[0].key).Nil == 0 {
				nonNilTerm(st, vals[0])
			}
		}
	}
	return []Outcome{{Res: tuple(toVals(st)...)}}
}

var mutators = []string{"encoding/", "(*encoding/", "(*math/big", "io.", "io/ioutil", "(*bufio", "fmt.Sscan", "fmt.Fscan", "(*bytes.Reader)", "(*strings.Reader)", "hash", "crypto/"}

func (in *Interp) havoc(c *Call) {
	mut := false
	for _, m := range mutators {
		if strings.HasPrefix(c.Name, m) {
			mut = true
		}
	}
	if !mut {
		return
	}
	args := in.deepArgs(c)
	for i, a := range c.Args {
		v := c.St.resolve(a)
		if ic, ok := v.(*Iface); ok {
			v = ic.V
		}
		switch p := v.(type) {
		case *Ptr:
			if cur, ok := getPath(c.St.get(p.Obj), p.Path); ok && cur != nil {
				t := mk(fmt.Sprintf("mut%d:%s", i, c.Name), orInvalid(valType(cur)), args...)
				if nv, ok := setPath(c.St.get(p.Obj), p.Path, t); ok {
					c.St.set(p.Obj, nv)
				}
			}
		case *Slice:
			if sq, ok := c.St.get(p.Obj).(*Seq); ok && isByteSlice(p.T) {
				t := mk(fmt.Sprintf("mut%d:%s", i, c.Name), p.T, args...)
				l := in.lenVal(c.St, p)
				lo, hi := c.St.interval(l)
				c.St.setIv(mk("len", tInt, t), lo, hi)
				_ = sq
				c.St.set(p.Obj, &Seq{P: []Part{{V: t, Spread: true}}})
			}
		}
	}
}

func constStr(s string) constant.Value { return constant.MakeString(s) }
