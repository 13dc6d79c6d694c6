package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P26"] = checkP26 }

// checkP26 decides that keys and key names carry what they were made from.
func checkP26(c *Ctx) {
	c.Rule("material", "a public key made from a modulus and an exponent holds copies of exactly those bytes, and the key encrypting with it is built from them", 4)
	c.Rule("generated", "a generated key holds modulus and exponent of the generated pair, which is also the one it signs with", 3)
	c.Rule("name", "a new key name carries the given bank, user and type, and the number and version of its kind", 10)
	c.Rule("initial", "a key name is reported initial if and only if number and version are the initial ones", 4)
	c.Rule("key", "a key hands out the name it was made with, and changing its number or version changes nothing else", 6)
	c.Rule("use", "signing and encrypting use the part of the key made for it, on the message given", 6)
	c.Rule("written", "wherever a key name is put into a segment, the segment carries exactly this name", 12)
	c.Rule("provider", "the headers written for a message name the key that signs or encrypts it", 6)
	c.Rule("roles", "a dialog signs with a signing key and encrypts with an encryption key of its own bank and user", 4)
	k := &keyCheck{c: c, p: c.P}
	k.material()
	k.names()
	k.keyTypes()
	k.written()
	k.providers()
	k.roles()
}

type keyCheck struct {
	c *Ctx
	p *Prog
}

func (k *keyCheck) interp() *Interp {
	in := NewInterp(k.p)
	in.ConvFork = false
	in.MaxFork = 2
	in.DeepN = 9
	in.Hook = keyHook
	return in
}

// keyHook models the numbers and the pair a key is made of.
func keyHook(call *Call) ([]Outcome, bool) {
	st := call.St
	const pre = "(*math/big.Int)."
	cont := func(v Val) Val {
		if p, ok := st.resolve(v).(*Ptr); ok {
			if c := st.get(p.Obj); c != nil {
				return c
			}
		}
		return st.resolve(v)
	}
	res := func(v Val) ([]Outcome, bool) { return []Outcome{{Res: v}}, true }
	switch call.Name {
	case pre + "SetBytes":
		p, ok := st.resolve(call.Args[0]).(*Ptr)
		if !ok {
			return nil, false
		}
		in := call.In
		st.set(p.Obj, mk("number of", tInt, flatBytes(in.deep(st, call.Args[1]))))
		return res(p)
	case pre + "Int64", pre + "Uint64":
		return res(mk("int of", call.Sig.Results().At(0).Type(), cont(call.Args[0])))
	case pre + "Bytes":
		return res(mk("bytes of", tBytes, cont(call.Args[0])))
	case "math/big.NewInt":
		return res(&Ptr{Obj: st.alloc(mk("big", tInt, stripConv(st.resolve(call.Args[0]))))})
	case "crypto/rsa.GenerateKey":
		t := sym("pair", call.Sig.Results().At(0).Type())
		nonNilTerm(st, t)
		return []Outcome{{Res: tuple(t, &Nil{tError})}, {Res: tuple(&Nil{t.T}, sym("no pair", tError)), Do: func(s *State) bool {
			nonNilTerm(s, sym("no pair", tError))
			return true
		}}}, true
	case "reflect.DeepEqual":
		return []Outcome{{Res: cBool(true)}}, true
	}
	if strings.HasPrefix(call.Name, "crypto/rsa.") {
		st.emit("rsa", call.Instr.Pos(), append([]Val{cStr(call.Name)}, call.Args...)...)
	}
	return nil, false
}

// flatBytes is the content of a byte sequence.
func flatBytes(v Val) Val {
	v = stripConv(v)
	if s, ok := v.(*Seq); ok {
		if len(s.P) == 1 && s.P[0].Spread {
			return flatBytes(s.P[0].V)
		}
	}
	if t, ok := v.(*Term); ok && t.Op == "cat" && len(t.A) == 1 {
		return flatBytes(t.A[0])
	}
	return v
}

func (k *keyCheck) where(fn *ssa.Function) string { return k.p.Pos(fn.Pos()) }

// frame binds the parameters of a function to the arguments of a call.
type bindFrame struct {
	call *ssa.CallCommon
	fn   *ssa.Function
	up   *bindFrame
}

// backing says whether a slice can point into memory of an argument of the
// outermost function, and whether its origin is known.
func (k *keyCheck) backing(v ssa.Value, fr *bindFrame, seen map[ssa.Value]bool) (shared, known bool) {
	known = true
	if seen[v] || len(seen) > 200 {
		return false, true
	}
	seen[v] = true
	join := func(w ssa.Value, f *bindFrame) {
		s, kn := k.backing(w, f, seen)
		shared, known = shared || s, known && kn
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		if fr == nil || fr.call == nil {
			return true, true
		}
		for i, p := range fr.fn.Params {
			if p == x && i < len(fr.call.Args) {
				join(fr.call.Args[i], fr.up)
				return
			}
		}
		return false, false
	case *ssa.Const, *ssa.MakeSlice, *ssa.Alloc:
		return false, true
	case *ssa.Convert:
		if b, ok := under(x.X.Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return false, true
		}
		join(x.X, fr)
	case *ssa.ChangeType:
		join(x.X, fr)
	case *ssa.Slice:
		join(x.X, fr)
	case *ssa.Phi:
		for _, e := range x.Edges {
			join(e, fr)
		}
	case *ssa.UnOp:
		a, ok := x.X.(*ssa.Alloc)
		if !ok || a.Referrers() == nil {
			return false, false
		}
		for _, r := range *a.Referrers() {
			if s, ok := r.(*ssa.Store); ok && s.Addr == a {
				join(s.Val, fr)
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			if b.Name() == "append" {
				// the entries appended are copied
				join(x.Call.Args[0], fr)
				return
			}
			return false, false
		}
		fn := x.Call.StaticCallee()
		if fn == nil {
			return false, false
		}
		if !k.p.InRepo(fn) {
			switch strings.SplitN(fn.RelString(nil), "[", 2)[0] {
			case "bytes.Clone", "slices.Clone", "bytes.Join", "slices.Concat", "(*math/big.Int).Bytes", "(*bytes.Buffer).Bytes", "bytes.Repeat":
				return false, true
			}
			return false, false
		}
		for _, b := range fn.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				join(r.Results[0], &bindFrame{x.Common(), fn, fr})
			}
		}
	default:
		return false, false
	}
	return
}

// stored calls f for every value a function, or what it calls, stores into an
// attribute of a public key.
func (k *keyCheck) stored(fn *ssa.Function, fr *bindFrame, depth int, f func(attr string, v ssa.Value, fr *bindFrame)) {
	if depth > 4 {
		return
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				fa, ok := x.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				n := namedOf(fa.X.Type())
				if n == nil || n.Obj().Name() != "PublicKey" || n.Obj().Pkg().Name() != "domain" {
					continue
				}
				f(structFields(n)[fa.Field].Name(), x.Val, fr)
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && k.p.InRepo(g) {
					k.stored(g, &bindFrame{x.Common(), g, fr}, depth+1, f)
				}
			}
		}
	}
}

func (k *keyCheck) material() {
	c := k.c
	for _, fn := range k.p.AllFuncs() {
		if pkgRel(fn) != "domain" || fn.Signature.Recv() != nil || fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Results().Len() == 0 {
			continue
		}
		n := namedOf(fn.Signature.Results().At(0).Type())
		if n == nil || n.Obj().Name() != "PublicKey" {
			continue
		}
		var bytesAt []int
		for i, p := range fn.Params {
			if sl, ok := under(p.Type()).(*types.Slice); ok && types.Identical(sl.Elem(), types.Typ[types.Byte]) {
				bytesAt = append(bytesAt, i)
			}
		}
		st := k.p.NewState()
		st.frames = nil
		args := symArgs(st, fn)
		in := k.interp()
		done := 0
		for _, q := range in.Run(st, fn, args...) {
			if q.Kind != "return" || len(q.Res) > 1 && !q.success() {
				if q.Kind == "trunc" {
					c.Undecided("material", fn.Name(), "not followed to its end")
				}
				continue
			}
			p, ok := q.St.resolve(q.Res[0]).(*Ptr)
			if !ok {
				c.Undecided("material", fn.Name(), "the key has an unrecognised form")
				continue
			}
			done++
			f := func(name string) Val { return q.St.resolve(fieldAt(q.St, p.Obj, fieldIndex(n, name))) }
			typ := func(rule, want string) {
				s, isC := asStr(stripConv(f("Type")))
				c.Check(rule, fn.Name()+" Type", isC && s == want, k.where(fn), "the key is of type %s, not %s", shortKey(f("Type").Key()), want)
			}
			pub := in.deep(q.St, f("rsaPublicKey"))
			priv := f("rsaPrivateKey")
			if len(bytesAt) == 2 {
				typ("material", "V")
				for i, name := range []string{"Modulus", "Exponent"} {
					a := args[bytesAt[i]]
					v := f(name)
					got := flatBytes(in.deep(q.St, v))
					if t, ok := got.(*Term); ok && strings.HasPrefix(t.Op, "call:") && !mentionsOp(t, argOp(args[bytesAt[1-i]])) {
						c.Undecided("material", fn.Name()+" "+name, "unrecognised form "+shortKey(t.Key()))
					} else {
						c.Check("material", fn.Name()+" "+name, got.Key() == a.Key(), k.where(fn), "%s is %s", name, shortKey(got.Key()))
					}
				}
				s, isS := expand(derefDeep(pub)).(*Struct)
				if !isS {
					c.Undecided("material", fn.Name()+" encrypting key", "unrecognised form "+shortKey(pub.Key()))
					continue
				}
				for i, name := range []string{"N", "E"} {
					ix := fieldIndex(s.T.(*types.Named), name)
					v := s.F[ix]
					own, other := mentionsOp(v, argOp(args[bytesAt[i]])), mentionsOp(v, argOp(args[bytesAt[1-i]]))
					c.Check("material", fn.Name()+" encrypting key "+name, own && !other, k.where(fn), "%s of the encrypting key is %s", name, shortKey(v.Key()))
				}
				continue
			}
			if len(bytesAt) == 0 && len(fn.Params) == 0 {
				typ("generated", "S")
				for name, part := range map[string]string{"Modulus": ".N", "Exponent": ".E"} {
					v := in.deep(q.St, f(name))
					other := map[string]string{".N": ".E(", ".E": ".N("}[part]
					ok, known := numberBytes(v, part)
					if !known {
						ok = strings.Contains(v.Key(), "pair") && strings.Contains(v.Key(), part+"(") && !strings.Contains(v.Key(), other)
						if ok {
							c.Undecided("generated", fn.Name()+" "+name, "unrecognised form "+shortKey(v.Key()))
							continue
						}
					}
					c.Check("generated", fn.Name()+" "+name, ok, k.where(fn), "%s is %s", name, shortKey(v.Key()))
				}
				c.Check("generated", fn.Name()+" signing key", in.deep(q.St, priv).Key() == "pair", k.where(fn), "the key signing is %s", shortKey(priv.Key()))
			}
		}
		c.use(in)
		if done == 0 {
			c.Undecided("material", fn.Name(), "could not be evaluated")
		}
		if len(bytesAt) == 2 {
			found := map[string]bool{}
			k.stored(fn, nil, 0, func(attr string, v ssa.Value, fr *bindFrame) {
				if attr != "Modulus" && attr != "Exponent" {
					return
				}
				found[attr] = true
				sh, known := k.backing(v, fr, map[ssa.Value]bool{})
				if !known && !sh {
					c.Undecided("material", fn.Name()+" "+attr+" is a copy", "the origin of the bytes is not recognised")
					return
				}
				c.Check("material", fn.Name()+" "+attr+" is a copy", !sh, k.p.Pos(v.Pos()), "%s shares the memory of the caller's bytes", attr)
			})
			for _, a := range []string{"Modulus", "Exponent"} {
				if !found[a] {
					c.Undecided("material", fn.Name()+" "+a+" is a copy", "no assignment found")
				}
			}
		}
	}
}

func argOp(v Val) string {
	if t, ok := v.(*Term); ok {
		return t.Op
	}
	return "?"
}

// derefDeep removes the address operator a deep value starts with.
func derefDeep(v Val) Val {
	if t, ok := v.(*Term); ok && t.Op == "&" && len(t.A) == 1 {
		return t.A[0]
	}
	return v
}

func fieldIndex(n *types.Named, name string) int {
	s := under(n).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	fatalf("%s has no field %s", n, name)
	return -1
}

// nameParts lists the attributes of a key name, with their types.
var nameParts = []string{"BankID", "UserID", "KeyType", "KeyNumber", "KeyVersion"}

func (k *keyCheck) keyName() *types.Named { return k.p.TypeNamed("domain", "KeyName") }

func (k *keyCheck) names() {
	c := k.c
	n := k.keyName()
	// which argument is which attribute, by position
	spec := map[string]map[string]string{
		"NewPinTanKeyName":  {"BankID": "0", "UserID": "1", "KeyType": "2", "KeyNumber": "=0", "KeyVersion": "=0"},
		"NewInitialKeyName": {"BankID.CountryCode": "0", "BankID.ID": "1", "UserID": "2", "KeyType": "3", "KeyNumber": "=999", "KeyVersion": "=999"},
	}
	for _, name := range []string{"NewPinTanKeyName", "NewInitialKeyName"} {
		fn := k.p.Func("domain", name)
		st := k.p.NewState()
		st.frames = nil
		args := symArgs(st, fn)
		in := k.interp()
		for _, q := range in.Run(st, fn, args...) {
			p, ok := q.St.resolve(first(q.Res)).(*Ptr)
			if q.Kind != "return" || !ok {
				c.Undecided("name", name, "could not be evaluated")
				continue
			}
			for _, at := range keys2(spec[name]) {
				want := spec[name][at]
				head, rest, nested := strings.Cut(at, ".")
				v := q.St.resolve(fieldAt(q.St, p.Obj, fieldIndex(n, head)))
				if nested {
					bs, ok := expand(v).(*Struct)
					if !ok {
						c.Undecided("name", name+" "+at, "unrecognised form")
						continue
					}
					v = q.St.resolve(bs.F[fieldIndex(bs.T.(*types.Named), rest)])
				}
				got := stripConv(in.deep(q.St, v)).Key()
				w := ""
				if strings.HasPrefix(want, "=") {
					var x int64
					fmt.Sscan(want[1:], &x)
					w = cInt(x).Key()
				} else {
					var i int
					fmt.Sscan(want, &i)
					w = in.deep(q.St, args[i]).Key()
				}
				c.Check("name", name+" "+at, got == w, k.where(fn), "%s is %s, given %s", at, shortKey(got), shortKey(w))
			}
		}
		c.use(in)
	}
	// the initial state
	is := k.p.Method("domain", "KeyName", "IsInitial")
	set := k.p.Method("domain", "KeyName", "SetInitial")
	for _, t := range []struct {
		num, ver int64
		want     bool
	}{{999, 999, true}, {999, 1, false}, {1, 999, false}, {0, 0, false}, {1, 1, false}} {
		st := k.p.NewState()
		st.frames = nil
		obj := structWith(st, n, "name.", func(f *types.Var) Val {
			switch f.Name() {
			case "KeyNumber":
				return cInt(t.num)
			case "KeyVersion":
				return cInt(t.ver)
			}
			return nil
		})
		in := k.interp()
		for _, q := range in.Run(st, is, &Ptr{Obj: obj}) {
			b, ok := asBool(q.St.resolve(first(q.Res)))
			lab := fmt.Sprintf("number %d version %d", t.num, t.ver)
			if q.Kind != "return" || !ok {
				c.Undecided("initial", lab, "could not be evaluated")
				continue
			}
			c.Check("initial", lab, b == t.want, k.where(is), "reported initial: %v", b)
		}
		c.use(in)
	}
	st := k.p.NewState()
	st.frames = nil
	obj := structWith(st, n, "name.", func(f *types.Var) Val { return nil })
	in := k.interp()
	for _, q := range in.Run(st, set, &Ptr{Obj: obj}) {
		for i, f := range structFields(n) {
			want := "name." + f.Name()
			if f.Name() == "KeyNumber" || f.Name() == "KeyVersion" {
				want = cInt(999).Key()
			}
			got := in.deep(q.St, fieldAt(q.St, obj, i)).Key()
			c.Check("initial", "reset "+f.Name(), q.Kind == "return" && (got == want || strings.HasSuffix(got, want)), k.where(set), "%s is %s afterwards", f.Name(), shortKey(got))
		}
	}
	c.use(in)
}

func first(l []Val) Val {
	if len(l) == 0 {
		return nil
	}
	return l[0]
}

func keys2(m map[string]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// symName is an unknown key name in memory, and its attributes.
func (k *keyCheck) symName(st *State, prefix string) (obj int, attrs map[string]string) {
	n := k.keyName()
	in := k.interp()
	obj = structWith(st, n, prefix, func(f *types.Var) Val { return nil })
	attrs = map[string]string{}
	for i, f := range structFields(n) {
		attrs[f.Name()] = in.deep(st, fieldAt(st, obj, i)).Key()
	}
	return obj, attrs
}

// nameOf reads a key name value.
func (k *keyCheck) nameOf(in *Interp, st *State, v Val) (map[string]string, bool) {
	s, ok := expand(derefDeep(in.deep(st, v))).(*Struct)
	if !ok {
		return nil, false
	}
	m := map[string]string{}
	for i, f := range structFields(k.keyName()) {
		m[f.Name()] = stripVal(whole(in.deep(st, s.F[i]))).Key()
	}
	return m, true
}

// whole is the value a structure was copied from attribute by attribute.
func whole(v Val) Val {
	if s, ok := v.(*Struct); ok {
		return wholeTerm(s)
	}
	return v
}

func differs(got, want map[string]string) string {
	for _, a := range nameParts {
		if got[a] != want[a] {
			return fmt.Sprintf("%s is %s, not %s", a, shortKey(got[a]), shortKey(want[a]))
		}
	}
	return ""
}

// keyType is a type of key and how it is made.
type keyType struct {
	n   *types.Named
	mk  *ssa.Function
	rsa bool
}

func (k *keyCheck) keyKinds() []keyType {
	var out []keyType
	for _, fn := range k.p.AllFuncs() {
		if pkgRel(fn) != "domain" || fn.Signature.Recv() != nil || fn.Object() == nil || !fn.Object().Exported() || len(fn.Params) != 2 || fn.Signature.Results().Len() != 1 {
			continue
		}
		if kn := namedOf(fn.Params[1].Type()); kn == nil || kn.Obj().Name() != "KeyName" {
			continue
		}
		n := namedOf(fn.Signature.Results().At(0).Type())
		if n == nil || k.p.MethodOpt(types.NewPointer(n), "KeyName") == nil {
			continue
		}
		_, isP := fn.Params[0].Type().(*types.Pointer)
		out = append(out, keyType{n, fn, isP})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].mk.Name() < out[j].mk.Name() })
	return out
}

// make builds a key with an unknown name. private and public select the parts
// of an RSA key that are there.
func (k *keyCheck) make(kt keyType, st *State, private, public bool) (v Val, attrs map[string]string, name int) {
	name, attrs = k.symName(st, "name.")
	var mat Val = sym("pin", tString)
	if kt.rsa {
		pn := k.p.TypeNamed("domain", "PublicKey")
		mat = &Ptr{Obj: structWith(st, pn, "key.", func(f *types.Var) Val {
			has := map[string]bool{"rsaPrivateKey": private, "rsaPublicKey": public}
			if there, part := has[f.Name()]; part {
				if !there {
					return &Nil{f.Type()}
				}
				t := sym(f.Name(), f.Type())
				nonNilTerm(st, t)
				return t
			}
			return nil
		})}
	}
	in := k.interp()
	ps := in.Run(st, kt.mk, mat, &Ptr{Obj: name})
	k.c.use(in)
	for _, p := range ps {
		if p.Kind == "return" {
			*st = *p.St
			st.frames = nil
			return p.Res[0], attrs, name
		}
	}
	return nil, attrs, name
}

func (k *keyCheck) call(st *State, recv Val, T types.Type, method string, args ...Val) (*Interp, []Path) {
	fn := k.p.MethodOpt(T, method)
	in := k.interp()
	s := st.clone()
	s.frames = nil
	if fn == nil {
		return in, nil
	}
	ps := in.Run(s, fn, append([]Val{recv}, args...)...)
	k.c.use(in)
	return in, ps
}

func (k *keyCheck) keyTypes() {
	c := k.c
	for _, kt := range k.keyKinds() {
		kt := kt
		T := types.NewPointer(kt.n)
		tn := kt.n.Obj().Name()
		pos := k.where(kt.mk)
		st := k.p.NewState()
		st.frames = nil
		v, attrs, _ := k.make(kt, st, true, true)
		if v == nil {
			c.Undecided("key", tn, "could not be made")
			continue
		}
		readName := func(s *State, lab string, want map[string]string) {
			in, ps := k.call(s, v, T, "KeyName")
			for _, q := range ps {
				got, ok := k.nameOf(in, q.St, first(q.Res))
				if q.Kind != "return" || !ok {
					c.Undecided("key", tn+" "+lab, "the name is not recognised")
					continue
				}
				d := differs(got, want)
				c.Check("key", tn+" "+lab, d == "", pos, "%s", d)
			}
		}
		readName(st, "name", attrs)
		for _, x := range [][2]string{{"SetKeyNumber", "KeyNumber"}, {"SetKeyVersion", "KeyVersion"}} {
			arg := sym("new "+x[1], tInt)
			_, ps := k.call(st, v, T, x[0], arg)
			for _, q := range ps {
				if q.Kind != "return" {
					continue
				}
				want := map[string]string{}
				for a, b := range attrs {
					want[a] = b
				}
				want[x[1]] = arg.Key()
				readName(q.St, "after "+x[0], want)
			}
		}
		msg := sym("message", tBytes)
		if !kt.rsa {
			k.pinKey(kt, T, v, st, msg, pos)
			continue
		}
		for i := 0; i < 4; i++ {
			private, public := i&1 != 0, i&2 != 0
			s := k.p.NewState()
			s.frames = nil
			key, _, _ := k.make(kt, s, private, public)
			for m, want := range map[string]bool{"CanSign": private, "CanEncrypt": public} {
				_, ps := k.call(s, key, T, m)
				for _, q := range ps {
					b, ok := asBool(q.St.resolve(first(q.Res)))
					lab := fmt.Sprintf("%s %s private %v public %v", tn, m, private, public)
					if q.Kind != "return" || !ok {
						c.Undecided("use", lab, "could not be evaluated")
						continue
					}
					c.Check("use", lab, b == want, pos, "%s is %v", m, b)
				}
			}
		}
		for m, part := range map[string]string{"Sign": "rsaPrivateKey", "Encrypt": "rsaPublicKey"} {
			other := map[string]string{"Sign": "rsaPublicKey", "Encrypt": "rsaPrivateKey"}[m]
			in, ps := k.call(st, v, T, m, msg)
			for _, q := range ps {
				if q.Kind != "return" {
					continue
				}
				n := 0
				for _, e := range q.St.Events() {
					if e.Kind != "rsa" {
						continue
					}
					n++
					used, wrong, text := false, false, false
					for _, a := range e.Args[1:] {
						d := in.deep(q.St, a)
						used = used || mentionsOp(d, part)
						wrong = wrong || mentionsOp(d, other)
						text = text || flatBytes(d).Key() == msg.Key()
					}
					c.Check("use", tn+" "+m, used && !wrong && text, pos, "%s does not work on the message with the part made for it", m)
				}
				if n == 0 {
					c.Undecided("use", tn+" "+m, "no operation of crypto/rsa found")
				}
			}
		}
	}
}

func (k *keyCheck) pinKey(kt keyType, T types.Type, v Val, st *State, msg Val, pos string) {
	c := k.c
	tn := kt.n.Obj().Name()
	for m, want := range map[string]string{"Sign": "pin", "Pin": "pin", "Encrypt": "message", "Decrypt": "message"} {
		var args []Val
		if m != "Pin" {
			args = append(args, msg)
		}
		in, ps := k.call(st, v, T, m, args...)
		for _, q := range ps {
			if q.Kind != "return" {
				c.Check("use", tn+" "+m, false, q.Where, "ends in %s", q.Kind)
				continue
			}
			got := flatBytes(in.deep(q.St, first(q.Res)))
			for {
				t, ok := got.(*Term)
				if !ok || len(t.A) != 1 || t.Op == "pin" {
					break
				}
				got = t.A[0]
			}
			if !mentionsOp(got, want) && !isConstVal(got) && !mentionsOp(got, "pin") && !mentionsOp(got, "message") {
				c.Undecided("use", tn+" "+m, "unrecognised form "+shortKey(got.Key()))
				continue
			}
			c.Check("use", tn+" "+m, got.Key() == want, pos, "the result is %s", shortKey(got.Key()))
		}
	}
	for _, m := range []string{"CanSign", "CanEncrypt"} {
		_, ps := k.call(st, v, T, m)
		for _, q := range ps {
			b, ok := asBool(q.St.resolve(first(q.Res)))
			c.Check("use", tn+" "+m, q.Kind == "return" && ok && b, pos, "a PIN key is usable for signing and encrypting")
		}
	}
}

func isConstVal(v Val) bool { _, ok := v.(*Const); return ok }

// nameElements finds the key name elements in a component and reads them.
func (k *keyCheck) nameElements(st *State, v Val) (out []map[string]string, known bool) {
	known = true
	seen := map[int]bool{}
	T := k.p.TypeNamed("element", "KeyNameDataElement")
	val := k.p.Method("element", "KeyNameDataElement", "Val")
	var rec func(v Val)
	rec = func(v Val) {
		v = st.resolve(v)
		switch x := v.(type) {
		case *Iface:
			rec(x.V)
		case *Ptr:
			if seen[x.Obj] || len(x.Path) > 0 {
				return
			}
			seen[x.Obj] = true
			s, ok := expand(st.get(x.Obj)).(*Struct)
			if !ok {
				return
			}
			if n, ok := s.T.(*types.Named); ok && n == T {
				in := k.interp()
				t := st.clone()
				t.frames = nil
				for _, q := range in.Run(t, val, x) {
					m, ok := k.nameOf(in, q.St, first(q.Res))
					if q.Kind != "return" || !ok {
						known = false
						continue
					}
					out = append(out, m)
				}
				return
			}
			for _, f := range s.F {
				if f != nil {
					rec(f)
				}
			}
		case *Struct:
			for _, f := range x.F {
				if f != nil {
					rec(f)
				}
			}
		}
	}
	rec(v)
	return
}

// nameArg is a key name value with unknown attributes.
func (k *keyCheck) nameArg(st *State, prefix string) (Val, map[string]string) {
	obj, attrs := k.symName(st, prefix)
	return st.get(obj), attrs
}

func (k *keyCheck) written() {
	c := k.c
	for _, fn := range k.p.AllFuncs() {
		rel := pkgRel(fn)
		if rel != "segment" && rel != "element" || fn.Object() == nil || !fn.Object().Exported() || fn.Parent() != nil || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		at := -1
		for i, p := range fn.Params {
			if n, ok := p.Type().(*types.Named); ok && n == k.keyName() {
				at = i
			}
		}
		if at < 0 {
			continue
		}
		name := fn.Name()
		recv := recvNamed(fn)
		if recv != nil {
			name = recv.Obj().Name() + "." + name
		}
		st := k.p.NewState()
		st.frames = nil
		args := symArgs(st, fn)
		var target Val
		if recv != nil {
			obj := structWith(st, recv, "old.", func(f *types.Var) Val { return nil })
			args[0] = &Ptr{Obj: obj}
			target = args[0]
		}
		kn, attrs := k.nameArg(st, "name.")
		args[at] = kn
		in := k.interp()
		done := 0
		for _, q := range in.Run(st, fn, args...) {
			if q.Kind != "return" {
				if q.Kind == "trunc" {
					c.Undecided("written", name, "not followed to its end")
				}
				continue
			}
			done++
			v := target
			if v == nil {
				v = first(q.Res)
			}
			els, known := k.nameElements(q.St, v)
			if !known || len(els) == 0 {
				if !known {
					c.Undecided("written", name, "the key name written is not recognised")
				} else {
					c.Check("written", name, false, k.where(fn), "no key name is written")
				}
				continue
			}
			bad := ""
			for _, m := range els {
				if d := differs(m, attrs); d != "" {
					bad = d
				}
			}
			c.Check("written", name, bad == "", k.where(fn), "%s", bad)
		}
		c.use(in)
		if done == 0 {
			c.Undecided("written", name, "could not be evaluated")
		}
	}
}

// providers: what signs and encrypts, and the headers naming its key.
func (k *keyCheck) providers() {
	c := k.c
	kinds := map[string]keyType{}
	for _, kt := range k.keyKinds() {
		kinds[kt.n.Obj().Name()] = kt
	}
	for _, fn := range k.p.constructors("message") {
		if len(fn.Params) != 2 {
			continue
		}
		kn := namedOf(fn.Params[0].Type())
		if kn == nil {
			continue
		}
		kt, ok := kinds[kn.Obj().Name()]
		if !ok || kn.Obj().Pkg().Name() != "domain" {
			continue
		}
		for _, hd := range []struct{ iface, write string }{{"SignatureHeader", "WriteSignatureHeader"}, {"EncryptionHeader", "WriteEncryptionHeader"}} {
			for _, hn := range k.headers(hd.iface) {
				st := k.p.NewState()
				st.frames = nil
				key, attrs, _ := k.make(kt, st, true, true)
				args := symArgs(st, fn)
				args[0] = key
				lab := fn.Name() + " " + hn.Obj().Name()
				in := k.interp()
				for _, q := range in.Run(st, fn, args...) {
					if q.Kind != "return" {
						continue
					}
					prov, ok := q.St.resolve(q.Res[0]).(*Iface)
					if !ok {
						c.Undecided("provider", lab, "the provider is not recognised")
						continue
					}
					if k.p.MethodOpt(prov.Dyn, hd.write) == nil {
						continue
					}
					s := q.St.clone()
					s.frames = nil
					obj := structWith(s, hn, "header.", func(f *types.Var) Val { return nil })
					h := &Iface{types.NewPointer(hn), &Ptr{Obj: obj}}
					_, ps := k.call(s, prov.V, prov.Dyn, hd.write, h)
					for _, r := range ps {
						if r.Kind != "return" {
							c.Undecided("provider", lab, "ends in "+r.Kind)
							continue
						}
						els, known := k.nameElements(r.St, &Ptr{Obj: obj})
						if !known || len(els) == 0 {
							if known {
								c.Check("provider", lab, false, k.where(fn), "no key name is written")
							} else {
								c.Undecided("provider", lab, "the key name written is not recognised")
							}
							continue
						}
						d := differs(els[0], attrs)
						c.Check("provider", lab, d == "", k.where(fn), "%s", d)
					}
				}
				c.use(in)
			}
		}
	}
}

// headers are the versions of a header.
func (k *keyCheck) headers(iface string) []*types.Named {
	I := k.p.TypeNamed("segment", iface)
	it, ok := under(I).(*types.Interface)
	if !ok {
		return nil
	}
	var out []*types.Named
	for _, n := range k.p.typesWith("segment", "elements") {
		if types.Implements(types.NewPointer(n), it) && !k.p.isVersionWrapper(n) {
			out = append(out, n)
		}
	}
	return out
}

// roles: the key types of the dialogs' providers.
func (k *keyCheck) roles() {
	c := k.c
	sh, eh := k.headers("SignatureHeader"), k.headers("EncryptionHeader")
	judge := func(lab string, st *State, dlg Val, where string) {
		obj, n := k.dialogOf(st, dlg)
		if n == nil {
			c.Undecided("roles", lab, "the dialog is not recognised")
			return
		}
		for i, f := range structFields(n) {
			for _, x := range []struct {
				iface, write, want string
				hs                 []*types.Named
			}{{"SignatureProvider", "WriteSignatureHeader", "S", sh}, {"CryptoProvider", "WriteEncryptionHeader", "V", eh}} {
				fn, ok := f.Type().(*types.Named)
				if !ok || fn.Obj().Name() != x.iface {
					continue
				}
				prov, ok := st.resolve(fieldAt(st, obj, i)).(*Iface)
				if !ok {
					if !isNil(st.resolve(fieldAt(st, obj, i))) {
						c.Undecided("roles", lab+" "+x.iface, "the provider is not recognised")
					}
					continue
				}
				for _, hn := range x.hs {
					s := st.clone()
					s.frames = nil
					h := structWith(s, hn, "header.", func(f *types.Var) Val { return nil })
					_, ps := k.call(s, prov.V, prov.Dyn, x.write, &Iface{types.NewPointer(hn), &Ptr{Obj: h}})
					for _, r := range ps {
						els, known := k.nameElements(r.St, &Ptr{Obj: h})
						if r.Kind != "return" || !known || len(els) == 0 {
							c.Undecided("roles", lab+" "+x.iface, "the key name is not recognised")
							continue
						}
						typ := els[0]["KeyType"]
						c.Check("roles", lab+" "+x.iface+" "+hn.Obj().Name(), typ == cStr(x.want).Key(), where, "the key is of type %s, not %s", shortKey(typ), x.want)
						who := els[0]["UserID"] + els[0]["BankID"]
						c.Check("roles", lab+" "+x.iface+" "+hn.Obj().Name()+" owner", k.owner(els[0]), where, "the key belongs to %s", shortKey(who))
					}
				}
			}
		}
	}
	for _, name := range []string{"NewRDHDialog", "NewPinTanDialog"} {
		fn := k.p.Func("dialog", name)
		st := k.p.NewState()
		st.frames = nil
		args := symArgs(st, fn)
		in := k.interp()
		done := 0
		for _, q := range in.Run(st, fn, args...) {
			if q.Kind != "return" {
				continue
			}
			done++
			judge(name, q.St, q.Res[0], k.where(fn))
			if name != "NewPinTanDialog" {
				continue
			}
			p, ok := q.St.resolve(q.Res[0]).(*Ptr)
			if !ok {
				continue
			}
			_, ps := k.call(q.St, p, q.Res0Type(fn), "SetPin", sym("pin", tString))
			for _, r := range ps {
				if r.Kind == "return" {
					judge(name+" after SetPin", r.St, p, k.where(fn))
				}
			}
		}
		c.use(in)
		if done == 0 {
			c.Undecided("roles", name, "could not be evaluated")
		}
	}
}

func (p Path) Res0Type(fn *ssa.Function) types.Type { return fn.Signature.Results().At(0).Type() }

// owner: bank and user of a key stem from what the dialog was made with.
func (k *keyCheck) owner(m map[string]string) bool {
	return strings.Contains(m["BankID"], "arg:0") && (strings.Contains(m["UserID"], "UserID(arg:0") || strings.Contains(m["UserID"], "arg:2")) && !strings.Contains(m["BankID"], "UserID")
}

// dialogOf finds the embedded dialog.
func (k *keyCheck) dialogOf(st *State, v Val) (int, *types.Named) {
	for i := 0; i < 4; i++ {
		v = st.resolve(v)
		if f, ok := v.(*Iface); ok {
			v = st.resolve(f.V)
		}
		p, ok := v.(*Ptr)
		if !ok {
			return 0, nil
		}
		s, ok := expand(st.get(p.Obj)).(*Struct)
		if !ok {
			return 0, nil
		}
		n, _ := s.T.(*types.Named)
		next := Val(nil)
		for j, f := range structFields(n) {
			if fn, ok := f.Type().(*types.Named); ok && fn.Obj().Name() == "SignatureProvider" {
				return p.Obj, n
			}
			if f.Embedded() {
				next = s.F[j]
			}
		}
		if next == nil {
			return 0, nil
		}
		v = next
	}
	return 0, nil
}

// numberBytes decides whether v is the byte text of a number of the generated
// pair: the bytes the number itself yields, or single bytes computed from it,
// which are evaluated for some numbers.
func numberBytes(v Val, part string) (ok, known bool) {
	t, isT := stripConv(v).(*Term)
	if !isT {
		return false, false
	}
	if t.Op == "bytes of" {
		x := stripConv(t.A[0])
		if b, isB := x.(*Term); isB && b.Op == "big" {
			x = stripConv(b.A[0])
		}
		p, isP := x.(*Term)
		if !isP {
			return false, false
		}
		return p.Op == part && strings.Contains(p.Key(), "pair"), true
	}
	if t.Op != "cat" {
		return false, false
	}
	for _, n := range []int64{3, 65537, 0x01020304} {
		got := new(big.Int)
		for _, p := range t.A {
			b, isB := p.(*Term)
			if !isB || b.Op != "byte1" {
				return false, false
			}
			r, known := evalByte(b.A[0], part, n)
			if !known {
				return false, false
			}
			got.Or(got.Lsh(got, 8), big.NewInt(r&0xff))
		}
		if got.Int64() != n {
			return false, true
		}
	}
	return true, true
}

// evalByte evaluates a formula over one number of the pair.
func evalByte(v Val, part string, n int64) (int64, bool) {
	if i, ok := asInt(v); ok {
		return int64(i), true
	}
	t, ok := v.(*Term)
	if !ok {
		return 0, false
	}
	if t.Op == part {
		return n, true
	}
	var a []int64
	for _, x := range t.A {
		r, ok := evalByte(x, part, n)
		if !ok {
			return 0, false
		}
		a = append(a, r)
	}
	switch {
	case len(a) == 1 && (strings.HasSuffix(t.Op, ":byte") || strings.HasSuffix(t.Op, ":uint8")):
		return a[0] & 0xff, true
	case len(a) == 1 && strings.HasPrefix(t.Op, "iconv:"):
		return a[0], true
	case len(a) != 2:
	case t.Op == ">>" && a[1] >= 0 && a[1] < 64:
		return a[0] >> uint(a[1]), true
	case t.Op == "<<" && a[1] >= 0 && a[1] < 64:
		return a[0] << uint(a[1]), true
	case t.Op == "&":
		return a[0] & a[1], true
	case t.Op == "|":
		return a[0] | a[1], true
	case t.Op == "/" && a[1] != 0:
		return a[0] / a[1], true
	case t.Op == "%" && a[1] != 0:
		return a[0] % a[1], true
	}
	return 0, false
}
