package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P06"] = checkP06 }

// syntaxChars are the characters with a meaning in the wire syntax, sorted.
const syntaxChars = "'+:?@"

// checkP06 decides that text and binary values cannot break out of their
// position: on the writing side over the wire form that every constructor of
// package element and segment produces, on the reading side over what every
// decoder stores.
func checkP06(c *Ctx) {
	c.Rule("released", "every text value handed to a constructor or setter of an element or segment reaches the wire with exactly the syntax characters + : ' ? @ preceded by the release character, once", 60)
	c.Rule("framed", "every binary value handed to a constructor reaches the wire as @number of its bytes@ followed by the unchanged bytes", 8)
	c.Rule("unreleased", "every text a decoder stores had exactly those release characters removed once, every binary value was taken by its announced length", 10)
	c.Rule("tokenised", "a text or binary field of a received message ends where it ends on the wire: a released delimiter or the content of a binary field does not end it, and no text is rejected for them", 12)
	c.Rule("read-back", "reading the written form of any text or binary value yields that value", 6)
	for _, l := range c.lexers() {
		if l.mk.Name() == "NewLexer" {
			l.rules = map[string]string{"released": "tokenised", "binary": "tokenised", "delimited": "tokenised"}
			l.explore()
		}
	}
	c.writtenTexts(func(w writtenText) {
		if w.binary {
			c.Check("framed", w.where(), w.framed, w.pos, "%s writes the bytes %s as %s", w.lab, w.leaf, w.form)
			return
		}
		switch {
		case w.unknown != "":
			c.Undecided("released", w.where(), "the text passes "+w.unknown)
		case len(w.substs) == 0:
			c.Check("released", w.where(), false, w.pos, "%s writes the text %s without release characters", w.lab, w.leaf)
		case len(w.substs) > 1:
			c.Check("released", w.where(), false, w.pos, "%s writes the text %s with characters replaced %d times", w.lab, w.leaf, len(w.substs))
		default:
			set, ok := releases(w.substs[0])
			c.Check("released", w.where(), ok && set == syntaxChars, w.pos, "%s writes the text %s with a release character before %q only (the syntax characters are %q)", w.lab, w.leaf, set, syntaxChars)
		}
	})
	c.readTexts(func(r readText) {
		if r.binary {
			return // decided by framed and read-back
		}
		if r.unknown != "" {
			c.Undecided("unreleased", r.where(), "the text passes "+r.unknown)
			return
		}
		want := map[string]string{}
		for _, x := range syntaxChars {
			want[string(x)] = "?" + string(x)
		}
		ok := len(r.removals) == 1 && undoes(want, r.removals[0])
		c.Check("unreleased", r.where(), ok, r.pos, "%s stores the text of %s with release characters removed %d times (%v)", r.lab, r.field, len(r.removals), r.removals)
	})
	for _, pr := range c.primitives() {
		t := pr.fn.Params[pr.value].Type()
		if isString(t) || isByteSlice(t) {
			c.roundTrip(pr, "", "read-back", "read-back")
		}
	}
}

// writtenText is a text value found in the wire form a constructor produces.
type writtenText struct {
	lab, leaf, pos string
	substs         []map[string]string
	encs           []string
	unknown        string
	binary, framed bool
	form           string
}

func (w writtenText) where() string { return w.lab + "/" + w.leaf }

// textLeaf is a text value of the caller.
func textLeaf(t *Term) bool {
	return (isString(t.T) || isByteSlice(t.T)) && (strings.HasPrefix(t.Op, "arg:") || strings.HasPrefix(t.Op, ".") || t.Op == "idx" || t.Op == "*" || strings.HasPrefix(t.Op, "set:"))
}

// writtenTexts marshals what every constructor (followed by at most one
// setter) yields and visits the text values in the result.
func (c *Ctx) writtenTexts(visit func(writtenText)) {
	for _, rel := range []string{"element", "segment"} {
		for _, fn := range c.P.constructors(rel) {
			n := resultNamed(fn)
			if n == nil || c.P.MethodOpt(types.NewPointer(n), "MarshalHBCI") == nil {
				continue
			}
			c.writtenBy(fn, n, nil, visit)
			for _, m := range c.setters(n) {
				c.writtenBy(fn, n, m, visit)
			}
		}
	}
}

// setters lists the exported methods of a type that take a text or bytes.
func (c *Ctx) setters(n *types.Named) (out []*ssa.Function) {
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		f, ok := ms.At(i).Obj().(*types.Func)
		if !ok || !f.Exported() || f.Name() == "UnmarshalHBCI" || strings.HasPrefix(f.Name(), "Unmarshal") {
			continue
		}
		sg := f.Type().(*types.Signature)
		if sg.Results().Len() > 0 && !(sg.Results().Len() == 1 && isError(sg.Results().At(0).Type())) {
			continue
		}
		for j := 0; j < sg.Params().Len(); j++ {
			if t := sg.Params().At(j).Type(); isString(t) || isByteSlice(t) {
				if m := c.P.MethodOpt(types.NewPointer(n), f.Name()); m != nil && m.Synthetic == "" {
					out = append(out, m)
				}
				break
			}
		}
	}
	return
}

func (c *Ctx) writtenBy(fn *ssa.Function, n *types.Named, setter *ssa.Function, visit func(writtenText)) {
	in := c.textInterp()
	in.MaxPaths = 64
	st := c.P.NewState()
	lab := fn.Pkg.Pkg.Name() + "." + fn.Name()
	marshal := c.P.MethodOpt(types.NewPointer(n), "MarshalHBCI")
	ps := in.Run(st, fn, symArgs(st, fn)...)
	if setter != nil {
		lab += "." + setter.Name()
		var next []Path
		for _, p := range ps {
			if p.Kind != "return" || isNil(p.St.resolve(p.Res[0])) {
				continue
			}
			p.St.frames = nil
			args := []Val{p.Res[0]}
			for i, q := range setter.Params[1:] {
				t := sym(fmt.Sprintf("set:%d:%s", i, q.Name()), q.Type())
				if isNillable(q.Type()) {
					nonNilTerm(p.St, t)
				}
				args = append(args, t)
			}
			for _, q := range in.Run(p.St, setter, args...) {
				if q.Kind == "return" && !q.failed() {
					q.Res = []Val{p.Res[0]}
					next = append(next, q)
				}
			}
		}
		ps = next
	}
	defer c.use(in)
	for _, p := range ps {
		if p.Kind != "return" || isNil(p.St.resolve(p.Res[0])) {
			continue
		}
		p.St.frames = nil
		for _, q := range in.Run(p.St, marshal, p.Res[0]) {
			if q.Kind != "return" {
				continue
			}
			parts := textParts(in.bytesTerm(q.St, q.Res[0]))
			for i, v := range parts {
				t, ok := v.(*Term)
				if !ok || isAtom(t) {
					continue
				}
				c.judgeWritten(lab, c.P.Pos(fn.Pos()), parts, i, t, visit)
			}
		}
	}
}

func (c *Ctx) judgeWritten(lab, pos string, parts []Val, i int, t *Term, visit func(writtenText)) {
	w := writtenText{lab: lab, pos: pos}
	for {
		switch {
		case textLeaf(t):
			w.leaf = shortKey(t.Key())
			if isByteSlice(t.T) && len(w.substs) == 0 {
				w.binary = true
				w.framed = len(w.encs) == 0 && framedAt(parts, i, t)
				w.form = shortKey(catOf(tString, parts...).Key())
			}
			visit(w)
			return
		case strings.HasPrefix(t.Op, "enc:"):
			w.encs = append(w.encs, t.Op)
		case strings.HasPrefix(t.Op, escOf+"["):
			w.substs = append(w.substs, substOf(t))
		case t.Op == "conv" && len(t.A) == 1:
		default:
			// a text that passes another function
			var leaf *Term
			walk(t, func(v Val) bool {
				if x, ok := v.(*Term); ok && leaf == nil && textLeaf(x) {
					leaf = x
				}
				return leaf == nil
			})
			if leaf == nil {
				return
			}
			w.leaf = shortKey(leaf.Key())
			if strings.HasPrefix(t.Op, "fmt:") || t.Op == "slice" {
				// formatted or cut without (or after) releasing
				inner := false
				walk(t, func(v Val) bool {
					if x, ok := v.(*Term); ok && strings.HasPrefix(x.Op, escOf+"[") {
						inner = true
					}
					return true
				})
				if !inner && len(w.substs) == 0 {
					visit(w)
					return
				}
			}
			w.unknown = strings.TrimPrefix(t.Op, "call:")
			visit(w)
			return
		}
		nt, ok := t.A[0].(*Term)
		if !ok {
			return
		}
		t = nt
	}
}

// framedAt reports that the bytes are preceded by @len@.
func framedAt(parts []Val, i int, t *Term) bool {
	if i < 2 {
		return false
	}
	end, ok := asStr(parts[i-1])
	n, ok2 := parts[i-2].(*Term)
	if !ok || !ok2 || end != "@" || n.Op != "itoa" || n.A[0].Key() != lenOf(t).Key() {
		return false
	}
	if i == 2 {
		return false
	}
	begin, ok := asStr(parts[i-3])
	return ok && strings.HasSuffix(begin, "@") && !strings.HasSuffix(begin, "?@")
}

// readText is a text a decoder stores.
type readText struct {
	lab, field, pos string
	removals        [][]string
	decs            []string
	raw             bool
	unknown         string
	binary          bool
}

func (r readText) where() string { return r.lab + "/" + r.field }

// readTexts runs every decoder of package element and segment on symbolic
// bytes that are accepted and visits the texts left in the decoded value.
func (c *Ctx) readTexts(visit func(readText)) {
	for _, rel := range []string{"element", "segment"} {
		sp := c.P.Pkg(rel)
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, name := range names {
			ty, ok := sp.Members[name].(*ssa.Type)
			if !ok {
				continue
			}
			n := namedOf(ty.Type())
			if n == nil {
				continue
			}
			if _, ok := under(n).(*types.Struct); !ok {
				continue
			}
			if f := c.P.MethodOpt(types.NewPointer(n), "UnmarshalHBCI"); f != nil && f.Synthetic == "" {
				c.readBy(n, f, visit)
			}
		}
	}
}

func (c *Ctx) readBy(n *types.Named, f *ssa.Function, visit func(readText)) {
	lab := n.Obj().Pkg().Name() + "." + n.Obj().Name()
	for try := 0; try < 72; try++ {
		// number of elements at the outside and within groups
		cnt, nested := 24-try%24, []int{7, 4, 2}[try/24]
		in := c.textInterp()
		in.MaxPaths = 200
		split := false
		in.Hook = func(k *Call) ([]Outcome, bool) {
			if isExtract(k) {
				split = true
				m := cnt
				arg := in.bytesTerm(k.St, k.Args[0])
				if mentionsOp(arg, "el:") {
					m = nested
				}
				var ps []Part
				if joined := splitJoined(arg); joined != nil {
					for _, e := range joined {
						ps = append(ps, Part{V: e})
					}
					return []Outcome{{Res: tuple(in.newSlice(k.St, types.NewSlice(tBytes), ps), &Nil{tError})}}, true
				}
				for i := 0; i < m; i++ {
					t := mk(fmt.Sprintf("el:%d", i), tBytes, arg)
					nonNilTerm(k.St, t)
					k.St.setIv(mk("len", tInt, t), 1, 1<<40)
					ps = append(ps, Part{V: t})
				}
				return []Outcome{{Res: tuple(in.newSlice(k.St, types.NewSlice(tBytes), ps), &Nil{tError})}}, true
			}
			if o, ok := textHook(k); ok {
				return o, ok
			}
			switch k.Name {
			case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseFloat", "time.Parse", "strconv.ParseUint":
				rs := k.Sig.Results()
				return []Outcome{{Res: tuple(mk("call:"+k.Name, rs.At(0).Type(), in.deepArgs(k)...), &Nil{tError})}}, true
			}
			return nil, false
		}
		st := c.P.NewState()
		o := st.alloc(zero(n))
		value := sym("value", tBytes)
		nonNilTerm(st, value)
		st.setIv(mk("len", tInt, value), 1, 1<<40)
		found := false
		for _, p := range in.Run(st, f, &Ptr{Obj: o}, value) {
			if p.Kind != "return" || p.failed() {
				continue
			}
			found = true
			c.storedTexts(in, p.St, lab, c.P.Pos(f.Pos()), "", p.St.get(o), map[int]bool{o: true}, visit)
		}
		c.use(in)
		if found || !split {
			if !found {
				c.note("%s: no accepted input found", lab)
			}
			return
		}
	}
	c.note("%s: no accepted number of elements found", lab)
}

// storedTexts visits the texts below a stored value that stem from the input.
func (c *Ctx) storedTexts(in *Interp, st *State, lab, pos, path string, v Val, seen map[int]bool, visit func(readText)) {
	v = st.resolve(expand(v))
	if ic, ok := v.(*Iface); ok {
		v = st.resolve(expand(ic.V))
	}
	if t := valType(v); t != nil && (isString(t) || isByteSlice(t)) {
		v = in.bytesTerm(st, v)
		for _, p := range textParts(v) {
			if x, ok := p.(*Term); ok && mentionsOp(x, "value") {
				c.judgeRead(lab, pos, path, x, isString(t), visit)
			}
		}
		return
	}
	switch x := v.(type) {
	case *Struct:
		var fs *types.Struct
		if x.T != nil {
			fs, _ = under(x.T).(*types.Struct)
		}
		for i, f := range x.F {
			name := fmt.Sprint(i)
			if fs != nil && i < fs.NumFields() {
				name = fs.Field(i).Name()
			}
			if f != nil {
				c.storedTexts(in, st, lab, pos, strings.TrimPrefix(path+"."+name, "."), f, seen, visit)
			}
		}
	case *Ptr:
		if seen[x.Obj] {
			return
		}
		seen[x.Obj] = true
		if y, ok := getPath(st.get(x.Obj), x.Path); ok {
			c.storedTexts(in, st, lab, pos, path, y, seen, visit)
		}
	case *Slice:
		if ps, ok := in.parts(st, x); ok {
			for _, p := range ps {
				c.storedTexts(in, st, lab, pos, path+"[]", p.V, seen, visit)
			}
		}
	}
}

func (c *Ctx) judgeRead(lab, pos, path string, t *Term, text bool, visit func(readText)) {
	c.readThrough(readText{lab: lab, field: path, pos: pos, binary: !text}, t, visit)
}

func (c *Ctx) readThrough(r readText, t *Term, visit func(readText)) {
	for {
		switch {
		case t.Op == "value" || strings.HasPrefix(t.Op, "el:"):
			visit(r)
			return
		case strings.HasPrefix(t.Op, "dec:"):
			r.decs = append(r.decs, t.Op)
		case strings.HasPrefix(t.Op, "unsubst["):
			r.removals = append(r.removals, strings.Split(strings.TrimSuffix(strings.TrimPrefix(t.Op, "unsubst["), "]"), "\x1f"))
		case t.Op == "conv" && len(t.A) == 1:
		case t.Op == "cat":
			for _, p := range t.A {
				if x, ok := p.(*Term); ok && mentionsOp(x, "value") {
					c.readThrough(r, x, visit)
				}
			}
			return
		default:
			r.unknown = strings.TrimPrefix(t.Op, "call:")
			visit(r)
			return
		}
		nt, ok := t.A[0].(*Term)
		if !ok {
			return
		}
		t = nt
	}
}

// splitJoined takes elements apart that were joined by a separator.
func splitJoined(v Val) (out []Val) {
	ps := textParts(v)
	if len(ps) < 3 || len(ps)%2 == 0 {
		return nil
	}
	for i, p := range ps {
		if i%2 == 1 {
			if s, ok := asStr(p); !ok || s != ":" && s != "+" {
				return nil
			}
			continue
		}
		t, ok := p.(*Term)
		if !ok || !strings.HasPrefix(t.Op, "el:") {
			return nil
		}
		out = append(out, p)
	}
	return
}
