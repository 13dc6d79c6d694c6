package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. All implementations are immutable.
type Val interface{ Key() string }

// Const is a known basic value.
type Const struct {
	V constant.Value
	T types.Type
}

// Nil is the nil value of a pointer, slice, map, func or interface type.
type Nil struct{ T types.Type }

// Ptr points into an abstract object.
type Ptr struct {
	Obj  int
	Path []int
}

// Struct is a struct or array value with known components.
type Struct struct {
	T types.Type
	F []Val
}

// Part is one component of a sequence: an element, or a whole symbolic slice.
type Part struct {
	V      Val
	Spread bool
}

// Seq is the content of a slice's backing store.
type Seq struct {
	P []Part
}

// Slice is a window over a Seq object. Hi < 0 means "to the end".
type Slice struct {
	Obj    int
	Lo, Hi int
	T      types.Type
}

// Iface is an interface value with a known dynamic type.
type Iface struct {
	Dyn types.Type
	V   Val
}

// Closure is a known function value.
type Closure struct {
	Fn   *ssa.Function
	Bind []Val
}

// Tuple is a multi-value result.
type Tuple struct{ V []Val }

// MapRef refers to a map object.
type MapRef struct {
	Obj int
	T   types.Type
}

// MapEnt is one known map entry.
type MapEnt struct{ K, V Val }

// MapC is the content of a map object; Base is the symbolic remainder or nil.
type MapC struct {
	E    []MapEnt
	Base Val
}

// IterV iterates over a map or a string.
type IterV struct {
	X   Val
	Pos int
	Id  int
}

// Term is a symbolic (Herbrand) value.
type Term struct {
	Op  string
	A   []Val
	T   types.Type
	key string
}

func mk(op string, t types.Type, a ...Val) *Term {
	x := &Term{Op: op, A: a, T: t}
	if len(a) == 0 {
		x.key = op
	} else {
		var b strings.Builder
		b.WriteString(op)
		b.WriteByte('(')
		for i, v := range a {
			if i > 0 {
				b.WriteByte(',')
			}
			if v == nil {
				b.WriteString("?")
			} else {
				b.WriteString(v.Key())
			}
		}
		b.WriteByte(')')
		x.key = b.String()
	}
	if len(x.key) > 4000 {
		x.key = fmt.Sprintf("%s#%x", x.key[:200], fnv(x.key))
	}
	return x
}

func fnv(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (c *Const) Key() string {
	if c.V.Kind() == constant.String {
		return strconv.Quote(constant.StringVal(c.V))
	}
	return c.V.ExactString()
}
func (n *Nil) Key() string { return "nil" }
func (p *Ptr) Key() string {
	s := "&o" + strconv.Itoa(p.Obj)
	for _, i := range p.Path {
		s += "." + strconv.Itoa(i)
	}
	return s
}
func (s *Struct) Key() string {
	var b strings.Builder
	b.WriteString("{")
	for i, f := range s.F {
		if i > 0 {
			b.WriteByte(';')
		}
		if f == nil {
			b.WriteString("?")
		} else {
			b.WriteString(f.Key())
		}
	}
	b.WriteString("}")
	return b.String()
}
func (s *Seq) Key() string {
	var b strings.Builder
	b.WriteString("[")
	for i, f := range s.P {
		if i > 0 {
			b.WriteByte(';')
		}
		if f.Spread {
			b.WriteString("...")
		}
		b.WriteString(f.V.Key())
	}
	b.WriteString("]")
	return b.String()
}
func (s *Slice) Key() string { return fmt.Sprintf("sl%d[%d:%d]", s.Obj, s.Lo, s.Hi) }
func (i *Iface) Key() string { return "I<" + typeName(i.Dyn) + ">" + i.V.Key() }
func (c *Closure) Key() string {
	s := "fn:" + c.Fn.String()
	for _, b := range c.Bind {
		s += "|" + b.Key()
	}
	return s
}
func (t *Tuple) Key() string {
	s := "<"
	for _, v := range t.V {
		s += v.Key() + ","
	}
	return s + ">"
}
func (m *MapRef) Key() string { return "map" + strconv.Itoa(m.Obj) }
func (m *MapC) Key() string {
	s := "M{"
	for _, e := range m.E {
		s += e.K.Key() + ":" + e.V.Key() + ";"
	}
	if m.Base != nil {
		s += "|" + m.Base.Key()
	}
	return s + "}"
}
func (m *IterV) Key() string { return "iter" + strconv.Itoa(m.Id) }
func (t *Term) Key() string  { return t.key }

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		return p.Name()
	})
}

var (
	tString = types.Typ[types.String]
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tByte   = types.Typ[types.Byte]
	tBytes  = types.NewSlice(types.Typ[types.Byte])
	tError  = types.Universe.Lookup("error").Type()
)

func cInt(i int64) *Const              { return &Const{constant.MakeInt64(i), tInt} }
func cBool(b bool) *Const              { return &Const{constant.MakeBool(b), tBool} }
func cStr(s string) *Const             { return &Const{constant.MakeString(s), tString} }
func sym(n string, t types.Type) *Term { return mk(n, t) }

func asConst(v Val) (*Const, bool) { c, ok := v.(*Const); return c, ok }
func asInt(v Val) (int, bool) {
	if c, ok := v.(*Const); ok && c.V.Kind() == constant.Int {
		i, ok := constant.Int64Val(c.V)
		return int(i), ok
	}
	return 0, false
}
func asStr(v Val) (string, bool) {
	if c, ok := v.(*Const); ok && c.V.Kind() == constant.String {
		return constant.StringVal(c.V), true
	}
	return "", false
}
func asBool(v Val) (bool, bool) {
	if c, ok := v.(*Const); ok && c.V.Kind() == constant.Bool {
		return constant.BoolVal(c.V), true
	}
	return false, false
}
func isNil(v Val) bool { _, ok := v.(*Nil); return ok }

func under(t types.Type) types.Type { return t.Underlying() }

func isByteSlice(t types.Type) bool {
	s, ok := under(t).(*types.Slice)
	if !ok {
		return false
	}
	b, ok := under(s.Elem()).(*types.Basic)
	return ok && b.Kind() == types.Byte
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isError(t types.Type) bool { return types.Identical(t, tError) }
func isNillable(t types.Type) bool {
	switch under(t).(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Signature, *types.Interface, *types.Chan:
		return true
	}
	return false
}

func valType(v Val) types.Type {
	switch x := v.(type) {
	case *Const:
		return x.T
	case *Nil:
		return x.T
	case *Struct:
		return x.T
	case *Slice:
		return x.T
	case *Term:
		return x.T
	case *Iface:
		return x.Dyn
	case *MapRef:
		return x.T
	case *Closure:
		return x.Fn.Signature
	}
	return nil
}

// zero returns the zero value of t.
func zero(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return &Const{constant.MakeString(""), t}
		case u.Info()&types.IsBoolean != 0:
			return &Const{constant.MakeBool(false), t}
		case u.Info()&types.IsNumeric != 0:
			return &Const{constant.MakeInt64(0), t}
		}
		return &Nil{t}
	case *types.Struct:
		s := &Struct{T: t}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, zero(u.Field(i).Type()))
		}
		return s
	case *types.Array:
		if u.Len() > 512 {
			return mk("zeroarr", t)
		}
		s := &Struct{T: t}
		z := zero(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			s.F = append(s.F, z)
		}
		return s
	case *types.Tuple:
		tp := &Tuple{}
		for i := 0; i < u.Len(); i++ {
			tp.V = append(tp.V, zero(u.At(i).Type()))
		}
		return tp
	}
	return &Nil{t}
}

// expand turns a symbolic struct term into a Struct of field terms.
func expand(v Val) Val {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	switch u := under(t.T).(type) {
	case *types.Struct:
		s := &Struct{T: t.T}
		for i := 0; i < u.NumFields(); i++ {
			s.F = append(s.F, mk("."+u.Field(i).Name(), u.Field(i).Type(), t))
		}
		return s
	case *types.Array:
		if u.Len() > 512 {
			return v
		}
		s := &Struct{T: t.T}
		for i := int64(0); i < u.Len(); i++ {
			s.F = append(s.F, mk("idx", u.Elem(), t, cInt(i)))
		}
		return s
	}
	return v
}

func getPath(v Val, path []int) (Val, bool) {
	for _, i := range path {
		v = expand(v)
		switch x := v.(type) {
		case *Struct:
			if i < 0 || i >= len(x.F) {
				return nil, false
			}
			v = x.F[i]
		case *Seq:
			if i < 0 || i >= len(x.P) || x.P[i].Spread {
				return nil, false
			}
			v = x.P[i].V
		default:
			return nil, false
		}
	}
	return v, true
}

func setPath(v Val, path []int, n Val) (Val, bool) {
	if len(path) == 0 {
		return n, true
	}
	v = expand(v)
	i := path[0]
	switch x := v.(type) {
	case *Struct:
		if i < 0 || i >= len(x.F) {
			return nil, false
		}
		s, ok := setPath(x.F[i], path[1:], n)
		if !ok {
			return nil, false
		}
		c := &Struct{T: x.T, F: append([]Val(nil), x.F...)}
		c.F[i] = s
		return c, true
	case *Seq:
		if i < 0 || i >= len(x.P) || x.P[i].Spread {
			return nil, false
		}
		s, ok := setPath(x.P[i].V, path[1:], n)
		if !ok {
			return nil, false
		}
		c := &Seq{P: append([]Part(nil), x.P...)}
		c.P[i] = Part{V: s}
		return c, true
	}
	return nil, false
}

func negOp(op token.Token) token.Token {
	switch op {
	case token.EQL:
		return token.NEQ
	case token.NEQ:
		return token.EQL
	case token.LSS:
		return token.GEQ
	case token.GEQ:
		return token.LSS
	case token.GTR:
		return token.LEQ
	case token.LEQ:
		return token.GTR
	}
	return op
}
func swapOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	}
	return op
}
