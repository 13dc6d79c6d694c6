package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
)

// Fact is what is known about one term. Entries are immutable.
type Fact struct {
	Nil    int8 // 0 unknown, 1 nil, 2 non-nil
	C      *Const
	NE     []string
	HasIv  bool
	Lo, Hi int64
	Typ    types.Type
	NT     []types.Type
	Cond   *Term // the condition this fact is about
}

func (s *State) fact(k string) Fact {
	if f, ok := s.facts[k]; ok {
		return f
	}
	return Fact{}
}
func (s *State) setFact(k string, f Fact) { s.facts[k] = f }

// linear splits v into base + offset.
func linear(v Val) (Val, int64) {
	if c, ok := v.(*Const); ok && c.V.Kind() == constant.Int {
		i, _ := constant.Int64Val(c.V)
		return nil, i
	}
	if t, ok := v.(*Term); ok && t.Op == "+" && len(t.A) == 2 {
		if c, ok := asInt(t.A[1]); ok {
			b, o := linear(t.A[0])
			return b, o + int64(c)
		}
	}
	return v, 0
}

func mkLinear(b Val, o int64, t types.Type) Val {
	if b == nil {
		return &Const{constant.MakeInt64(o), t}
	}
	if o == 0 {
		return b
	}
	return mk("+", t, b, &Const{constant.MakeInt64(o), t})
}

// interval returns bounds of an integer value.
func (s *State) interval(v Val) (int64, int64) {
	lo, hi := int64(math.MinInt64/4), int64(math.MaxInt64/4)
	b, o := linear(v)
	if b == nil {
		return o, o
	}
	k := b.Key()
	if t, ok := b.(*Term); ok {
		switch t.Op {
		case "len", "cap":
			lo = 0
			if n, ok := t.A[0].(*Term); ok && n.Op == "itoa" && len(n.A) == 1 {
				lo, hi = 1, 20
				if l, h := s.interval(n.A[0]); l >= 0 {
					lo, hi = int64(len(fmt.Sprint(l))), int64(len(fmt.Sprint(h)))
				}
			}
		case "+":
			l1, h1 := s.interval(t.A[0])
			l2, h2 := s.interval(t.A[1])
			lo, hi = l1+l2, h1+h2
		case "%":
			if c, ok := asInt(t.A[1]); ok && c > 0 {
				lo, hi = int64(-c+1), int64(c-1)
				if l, _ := s.interval(t.A[0]); l >= 0 {
					lo = 0
				}
			}
		}
		if bt, ok := under(t.T).(*types.Basic); ok {
			switch bt.Kind() {
			case types.Uint8:
				if lo < 0 {
					lo = 0
				}
				if hi > 255 {
					hi = 255
				}
			case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
				if lo < 0 {
					lo = 0
				}
			}
		}
	}
	f := s.fact(k)
	if f.HasIv {
		if f.Lo > lo {
			lo = f.Lo
		}
		if f.Hi < hi {
			hi = f.Hi
		}
	}
	if f.C != nil && f.C.V.Kind() == constant.Int {
		i, _ := constant.Int64Val(f.C.V)
		lo, hi = i, i
	}
	return clampAdd(lo, o), clampAdd(hi, o)
}

func clampAdd(a, b int64) int64 {
	r := a + b
	const lim = math.MaxInt64 / 2
	if r > lim {
		return lim
	}
	if r < -lim {
		return -lim
	}
	return r
}

// resolve replaces a term by what the facts say it equals.
func (s *State) resolve(v Val) Val {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	f, ok := s.facts[t.key]
	if ok {
		if f.C != nil {
			return f.C
		}
		if f.Nil == 1 {
			return &Nil{t.T}
		}
	}
	if isInteger(t.T) {
		if lo, hi := s.interval(t); lo == hi {
			return &Const{constant.MakeInt64(lo), t.T}
		}
	}
	return v
}

// nilness: 1 nil, 2 non-nil, 0 unknown.
func (s *State) nilness(v Val) int8 {
	switch x := v.(type) {
	case *Nil:
		return 1
	case *Term:
		f := s.fact(x.key)
		if f.Nil != 0 {
			return f.Nil
		}
		if f.Typ != nil {
			return 2
		}
		if nonNilOp[x.Op] {
			return 2
		}
		if _, ok := under(x.T).(*types.Slice); ok {
			if lo, _ := s.interval(mk("len", tInt, x)); lo > 0 {
				return 2
			}
		}
		return 0
	case nil:
		return 0
	}
	return 2
}

var nonNilOp = map[string]bool{"newerr": true, "conv": false}

// truth evaluates a boolean value under the state's facts.
func (s *State) truth(v Val) (bool, bool) {
	if b, ok := asBool(v); ok {
		return b, true
	}
	t, ok := v.(*Term)
	if !ok {
		return false, false
	}
	if t.Op == "!" {
		b, ok := s.truth(t.A[0])
		return !b, ok
	}
	if f, ok := s.facts[t.key]; ok && f.C != nil {
		return asBool(f.C)
	}
	if t.Op == "typeis" {
		if it, ok := t.A[0].(*Term); ok {
			return s.typeIs(it, t.A[1].(*Term).T)
		}
	}
	if op, ok := cmpOps[t.Op]; ok {
		return s.compare(op, t.A[0], t.A[1])
	}
	return false, false
}

func (s *State) typeIs(it *Term, T types.Type) (bool, bool) {
	f := s.fact(it.key)
	if f.Nil == 1 {
		return false, true
	}
	if f.Typ != nil {
		return matchType(f.Typ, T), true
	}
	for _, n := range f.NT {
		if types.Identical(n, T) {
			return false, true
		}
	}
	return false, false
}

func matchType(dyn, T types.Type) bool {
	if types.IsInterface(T) {
		return types.Implements(dyn, under(T).(*types.Interface))
	}
	return types.Identical(dyn, T)
}

var cmpOps = map[string]token.Token{"==": token.EQL, "<": token.LSS, "<=": token.LEQ}

// compare decides x op y if possible.
func (s *State) compare(op token.Token, x, y Val) (bool, bool) {
	x, y = s.resolve(x), s.resolve(y)
	switch op {
	case token.NEQ:
		b, ok := s.compare(token.EQL, x, y)
		return !b, ok
	case token.GTR, token.GEQ:
		return s.compare(swapOp(op), y, x)
	}
	cx, okx := asConst(x)
	cy, oky := asConst(y)
	if okx && oky {
		if cx.V.Kind() != cy.V.Kind() && (cx.V.Kind() == constant.String || cy.V.Kind() == constant.String) {
			return false, false
		}
		return constant.Compare(cx.V, op, cy.V), true
	}
	if op == token.EQL {
		if x.Key() == y.Key() {
			if _, isT := x.(*Term); !isT || !isFloatT(x) {
				return true, true
			}
		}
		if isNil(x) || isNil(y) {
			o := y
			if isNil(y) {
				o = x
			}
			switch s.nilness(o) {
			case 1:
				return true, true
			case 2:
				return false, true
			}
			return false, false
		}
		switch a := x.(type) {
		case *Ptr:
			if b, ok := y.(*Ptr); ok {
				return a.Key() == b.Key(), true
			}
		case *Iface:
			if b, ok := y.(*Iface); ok {
				if !types.Identical(a.Dyn, b.Dyn) {
					return false, true
				}
				return s.compare(op, a.V, b.V)
			}
		case *Struct:
			if b, ok := y.(*Struct); ok && len(a.F) == len(b.F) {
				all := true
				for i := range a.F {
					e, ok := s.compare(op, a.F[i], b.F[i])
					if ok && !e {
						return false, true
					}
					if !ok {
						all = false
					}
				}
				if all {
					return true, true
				}
				return false, false
			}
		}
		// disequalities
		if t, ok := x.(*Term); ok && oky {
			return s.neKnown(t, cy)
		}
		if t, ok := y.(*Term); ok && okx {
			return s.neKnown(t, cx)
		}
	}
	if isIntVal(x) && isIntVal(y) {
		bx, ox := linear(x)
		by, oy := linear(y)
		if bx != nil && by != nil && bx.Key() == by.Key() {
			return constant.Compare(constant.MakeInt64(ox), op, constant.MakeInt64(oy)), true
		}
		lx, hx := s.interval(x)
		ly, hy := s.interval(y)
		switch op {
		case token.EQL:
			if hx < ly || hy < lx {
				return false, true
			}
		case token.LSS:
			if hx < ly {
				return true, true
			}
			if lx >= hy {
				return false, true
			}
		case token.LEQ:
			if hx <= ly {
				return true, true
			}
			if lx > hy {
				return false, true
			}
		}
	}
	k := mk(op.String(), tBool, x, y).key
	if f, ok := s.facts[k]; ok && f.C != nil {
		return asBool(f.C)
	}
	if op == token.EQL {
		k := mk(op.String(), tBool, y, x).key
		if f, ok := s.facts[k]; ok && f.C != nil {
			return asBool(f.C)
		}
	}
	if isIntVal(x) && isIntVal(y) && op != token.EQL {
		return s.difference(op, x, y)
	}
	return false, false
}

// difference decides an inequality of two numbers from one known about numbers
// a constant away from them.
func (s *State) difference(op token.Token, x, y Val) (bool, bool) {
	bx, ox := linear(x)
	by, oy := linear(y)
	if bx == nil || by == nil {
		return false, false
	}
	kx, ky := bx.Key(), by.Key()
	// the question: bx-by <= want
	want := oy - ox
	if op == token.LSS {
		want--
	}
	res, known := false, false
	s.conds(func(t *Term, b bool) {
		if known || t.Op != "<" && t.Op != "<=" || len(t.A) != 2 {
			return
		}
		bu, ou := linear(t.A[0])
		bv, ov := linear(t.A[1])
		if bu == nil || bv == nil {
			return
		}
		if !b { // v < u or v <= u
			bu, bv, ou, ov = bv, bu, ov, ou
		}
		c := ov - ou // bu-bv <= c
		if (t.Op == "<") == b {
			c--
		}
		switch {
		case bu.Key() == kx && bv.Key() == ky && c <= want:
			res, known = true, true
		case bu.Key() == ky && bv.Key() == kx && -c > want:
			res, known = false, true
		}
	})
	return res, known
}

func isFloatT(v Val) bool {
	t := valType(v)
	if t == nil {
		return false
	}
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isIntVal(v Val) bool {
	if c, ok := v.(*Const); ok {
		return c.V.Kind() == constant.Int && isInteger(c.T)
	}
	if t, ok := v.(*Term); ok {
		return isInteger(t.T)
	}
	return false
}

func (s *State) neKnown(t *Term, c *Const) (bool, bool) {
	f := s.fact(t.key)
	k := c.Key()
	for _, n := range f.NE {
		if n == k {
			return false, true
		}
	}
	// non-empty knowledge of strings
	if str, ok := asStr(c); ok && (isString(t.T) || isByteSlice(t.T)) {
		lo, hi := s.interval(lenOf(t))
		if int64(len(str)) < lo || int64(len(str)) > hi {
			return false, true
		}
		if t.Op == "cat" {
			// constant pieces longer than the constant cannot match
			n := 0
			for _, a := range t.A {
				if p, ok := asStr(a); ok {
					n += len(p)
				}
			}
			if n > len(str) {
				return false, true
			}
			if p, ok := asStr(t.A[0]); ok && len(p) <= len(str) && str[:len(p)] != p {
				return false, true
			}
		}
	}
	if isIntVal(t) {
		if i, ok := asInt(c); ok {
			lo, hi := s.interval(t)
			if int64(i) < lo || int64(i) > hi {
				return false, true
			}
		}
	}
	return false, false
}

// assume adds v == b to the facts; false means contradiction.
func (s *State) assume(v Val, b bool) bool {
	if k, ok := s.truth(v); ok {
		return k == b
	}
	t, ok := v.(*Term)
	if !ok {
		return true
	}
	switch t.Op {
	case "!":
		return s.assume(t.A[0], !b)
	case "typeis":
		it := t.A[0].(*Term)
		f := s.fact(it.key)
		if b {
			if !types.IsInterface(t.A[1].(*Term).T) {
				f.Typ = t.A[1].(*Term).T
			}
			f.Nil = 2
		} else {
			f.NT = append(append([]types.Type(nil), f.NT...), t.A[1].(*Term).T)
		}
		s.setFact(it.key, f)
		s.setFact(t.key, Fact{C: cBool(b)})
		return true
	case "==", "<", "<=":
		s.setFact(t.key, Fact{C: cBool(b), Cond: t})
		op := cmpOps[t.Op]
		if !b {
			op = negOp(op)
		}
		return s.assumeCmp(op, t.A[0], t.A[1])
	}
	f := s.fact(t.key)
	f.C = cBool(b)
	f.Cond = t
	s.setFact(t.key, f)
	return true
}

// conds lists the conditions decided on the path with their outcome.
func (s *State) conds(f func(t *Term, b bool)) {
	for _, x := range s.facts {
		if x.Cond != nil && x.C != nil {
			if b, ok := asBool(x.C); ok {
				f(x.Cond, b)
			}
		}
	}
}

func (s *State) assumeCmp(op token.Token, x, y Val) bool {
	x, y = s.resolve(x), s.resolve(y)
	if op == token.EQL || op == token.NEQ {
		if isNil(x) {
			x, y = y, x
		}
		if isNil(y) {
			if t, ok := x.(*Term); ok {
				f := s.fact(t.key)
				want := int8(1)
				if op == token.NEQ {
					want = 2
				}
				if f.Nil != 0 && f.Nil != want {
					return false
				}
				f.Nil = want
				s.setFact(t.key, f)
				if want == 1 {
					if _, ok := under(t.T).(*types.Slice); ok {
						return s.setIv(mk("len", tInt, t), 0, 0)
					}
				}
			}
			return true
		}
		if _, ok := asConst(x); ok {
			x, y = y, x
		}
		if c, ok := asConst(y); ok {
			b, o := linear(x)
			t, isT := b.(*Term)
			if !isT {
				return true
			}
			if isIntVal(x) && c.V.Kind() == constant.Int {
				ci, _ := constant.Int64Val(c.V)
				ci -= o
				if op == token.EQL {
					return s.setIv(t, ci, ci)
				}
				lo, hi := s.interval(t)
				if lo == ci {
					return s.setIv(t, lo+1, hi)
				}
				if hi == ci {
					return s.setIv(t, lo, hi-1)
				}
				f := s.fact(t.key)
				f.NE = append(append([]string(nil), f.NE...), cInt(ci).Key())
				s.setFact(t.key, f)
				return true
			}
			f := s.fact(t.key)
			if op == token.EQL {
				f.C = c
				s.setFact(t.key, f)
			} else {
				f.NE = append(append([]string(nil), f.NE...), c.Key())
				s.setFact(t.key, f)
				if str, ok := asStr(c); ok && str == "" {
					return s.setIv(lenOf(t), 1, math.MaxInt64/4)
				}
				if bv, ok := asBool(c); ok {
					f.C = cBool(!bv)
					s.setFact(t.key, f)
				}
			}
			return true
		}
		if isIntVal(x) && isIntVal(y) && op == token.EQL {
			lx, hx := s.interval(x)
			ly, hy := s.interval(y)
			lo, hi := max(lx, ly), min(hx, hy)
			return s.setIv(x, lo, hi) && s.setIv(y, lo, hi)
		}
		return true
	}
	if !isIntVal(x) || !isIntVal(y) {
		return true
	}
	lx, hx := s.interval(x)
	ly, hy := s.interval(y)
	switch op {
	case token.LSS:
		return s.setIv(x, lx, min(hx, hy-1)) && s.setIv(y, max(ly, lx+1), hy)
	case token.LEQ:
		return s.setIv(x, lx, min(hx, hy)) && s.setIv(y, max(ly, lx), hy)
	case token.GTR:
		return s.setIv(x, max(lx, ly+1), hx) && s.setIv(y, ly, min(hy, hx-1))
	case token.GEQ:
		return s.setIv(x, max(lx, ly), hx) && s.setIv(y, ly, min(hy, hx))
	}
	return true
}

// setIv narrows the interval of v; false means empty.
func (s *State) setIv(v Val, lo, hi int64) bool {
	if lo > hi {
		return false
	}
	b, o := linear(v)
	if b == nil {
		return lo <= o && o <= hi
	}
	if lo <= math.MinInt64/4 && hi >= math.MaxInt64/4 {
		return true
	}
	lo, hi = clampAdd(lo, -o), clampAdd(hi, -o)
	k := b.Key()
	l0, h0 := s.interval(b)
	lo, hi = max(lo, l0), min(hi, h0)
	if lo > hi {
		return false
	}
	f := s.fact(k)
	for changed := true; changed; {
		changed = false
		for _, n := range f.NE {
			if n == cInt(lo).Key() {
				lo++
				changed = true
			} else if n == cInt(hi).Key() {
				hi--
				changed = true
			}
		}
	}
	if lo > hi {
		return false
	}
	f.HasIv, f.Lo, f.Hi = true, lo, hi
	s.setFact(k, f)
	if t, ok := b.(*Term); ok && t.Op == "+" {
		// a + b with one side exactly known narrows the other
		l1, h1 := s.interval(t.A[0])
		l2, h2 := s.interval(t.A[1])
		if _, isC := asConst(t.A[0]); !isC {
			if !s.setIvQuiet(t.A[0], clampAdd(lo, -h2), clampAdd(hi, -l2)) {
				return false
			}
		}
		if _, isC := asConst(t.A[1]); !isC {
			if !s.setIvQuiet(t.A[1], clampAdd(lo, -h1), clampAdd(hi, -l1)) {
				return false
			}
		}
	}
	if t, ok := b.(*Term); ok && t.Op == "len" && hi == 0 {
		if a, ok := t.A[0].(*Term); ok && isString(a.T) {
			g := s.fact(a.key)
			g.C = cStr("")
			s.setFact(a.key, g)
		}
	}
	return true
}

func (s *State) setIvQuiet(v Val, lo, hi int64) bool {
	l0, h0 := s.interval(v)
	if lo <= l0 && hi >= h0 {
		return true
	}
	return s.setIv(v, max(lo, l0), min(hi, h0))
}

// lenOf builds the length of a string-like or slice term, seeing through conversions.
func lenOf(v Val) Val {
	switch x := v.(type) {
	case *Const:
		if str, ok := asStr(x); ok {
			return cInt(int64(len(str)))
		}
	case *Nil:
		return cInt(0)
	case *Struct:
		return cInt(int64(len(x.F)))
	case *Term:
		if n := fldLen(x); n > 0 {
			return cInt(int64(n))
		}
		switch x.Op {
		case "conv":
			if isString(x.T) || isByteSlice(x.T) {
				if at := valType(x.A[0]); at != nil && (isString(at) || isByteSlice(at)) {
					return lenOf(x.A[0])
				}
			}
		case "cat":
			var b Val
			var o int64
			for _, a := range x.A {
				lb, lo := linear(lenOf(a))
				o += lo
				if lb != nil {
					if b == nil {
						b = lb
					} else {
						b = mk("+", tInt, b, lb)
					}
				}
			}
			return mkLinear(b, o, tInt)
		case "byte1":
			return cInt(1)
		case "slice":
			if lo, ok := asInt(x.A[1]); ok {
				if b, o := linear(x.A[2]); b != nil || o >= int64(lo) {
					return mkLinear(b, o-int64(lo), tInt)
				}
			}
		}
		if strings.HasPrefix(x.Op, "make#") && len(x.A) == 1 {
			return x.A[0]
		}
		return mk("len", tInt, x)
	}
	return mk("len", tInt, v)
}
