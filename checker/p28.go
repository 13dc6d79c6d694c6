package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P28"] = checkP28 }

// checkP28 decides that the tokenizers cover their input without gap or overlap.
func checkP28(c *Ctx) {
	c.Rule("contiguous", "a token holds exactly the bytes from the end of the token before it up to its own end, and names the position where it begins", 25)
	c.Rule("progress", "a token that is neither an error nor the end of the stream covers at least one byte of the input", 25)
	c.Rule("resumes", "after a token the tokenizer stands at the token's end and announces more", 25)
	c.Rule("delimited", "of a message, a delimiter is a token of its own and a value ends where a delimiter follows", 8)
	c.Rule("released", "of a message, a value holds no delimiter but released ones, and is not rejected for a released syntax character", 10)
	c.Rule("end", "the end of the stream is reported only when all input is consumed, and nothing follows it", 2)
	c.Rule("error", "after an error nothing is announced any more", 5)
	c.Rule("bounds", "no step reads outside the input", 5)
	c.Rule("binary", "a binary field ends where its announced length says, and none of its bytes is looked at before", 1)
	for _, l := range c.lexers() {
		l.explore()
	}
}

// lexer is one tokenizer of the library, found by what it offers.
type lexer struct {
	c                *Ctx
	mk, next, more   *ssa.Function
	name             string
	tErr, tEOF, tBin int
	input            *Term
	st               *State // as constructed
	ptr              Val    // what the constructor returned
	pos              map[int]bool
	obj              int
	rules            map[string]string // the rules that count, by name; nil: all
}

func (c *Ctx) lexers() []*lexer {
	sp := c.P.Pkg("token")
	var names []string
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []*lexer
	for _, n := range names {
		f, ok := sp.Members[n].(*ssa.Function)
		if !ok || f.Object() == nil || !f.Object().Exported() || f.Signature.Results().Len() != 1 {
			continue
		}
		bytes := false
		for i := 0; i < f.Signature.Params().Len(); i++ {
			bytes = bytes || isByteSlice(f.Signature.Params().At(i).Type())
		}
		T := f.Signature.Results().At(0).Type()
		if !bytes {
			continue
		}
		next, more := c.P.MethodOpt(T, "Next"), c.P.MethodOpt(T, "HasNext")
		if next == nil || more == nil {
			continue
		}
		k := func(name string) int {
			if nc, ok := sp.Members[name].(*ssa.NamedConst); ok {
				i, _ := constant.Int64Val(nc.Value.Value)
				return int(i)
			}
			return -1
		}
		out = append(out, &lexer{c: c, mk: f, next: next, more: more, name: strings.TrimPrefix(n, "New"), tErr: k("ERROR"), tEOF: k("EOF"), tBin: k("BINARY_DATA")})
	}
	return out
}

func (l *lexer) interp() *Interp {
	in := NewInterp(l.c.P)
	in.ConvFork = false
	in.MaxVisit = lexRounds
	in.MaxFork = 1000
	in.MaxPaths = 150000
	in.MaxSteps = 40000000
	in.DeepN = 6
	in.Hook = func(k *Call) ([]Outcome, bool) { return l.hook(k) }
	return in
}

// ---- sets of bytes

type byteSet [4]uint64

func (s *byteSet) add(b int)     { s[b>>6] |= 1 << (b & 63) }
func (s byteSet) has(b int) bool { return s[b>>6]>>(b&63)&1 == 1 }
func (s byteSet) empty() bool    { return s == byteSet{} }
func (s byteSet) and(o byteSet) byteSet {
	for i := range s {
		s[i] &= o[i]
	}
	return s
}
func (s byteSet) not() byteSet {
	for i := range s {
		s[i] = ^s[i]
	}
	return s
}

func textSet(t string) (s byteSet) {
	for i := 0; i < len(t); i++ {
		s.add(int(t[i]))
	}
	return s
}

// byteCond: the bytes for which a condition on one byte holds.
func byteCond(t *Term) (b *Term, s byteSet, ok bool) {
	if strings.HasPrefix(t.Op, "in:") {
		b, ok = t.A[0].(*Term)
		return b, textSet(t.Op[3:]), ok
	}
	if t.Op != "==" && t.Op != "<" && t.Op != "<=" || len(t.A) != 2 {
		return nil, s, false
	}
	x, y := stripConv(t.A[0]), stripConv(t.A[1])
	cx, okx := asInt(x)
	cy, oky := asInt(y)
	tx, isx := x.(*Term)
	ty, isy := y.(*Term)
	switch {
	case isx && oky && tx.Op == "idx":
		b = tx
	case isy && okx && ty.Op == "idx":
		b = ty
	default:
		return nil, s, false
	}
	for v := 0; v < 256; v++ {
		l, r := v, v
		if oky {
			r = cy
		}
		if okx {
			l = cx
		}
		if t.Op == "==" && l == r || t.Op == "<" && l < r || t.Op == "<=" && l <= r {
			s.add(v)
		}
	}
	return b, s, true
}

// possible are the values every byte can have on this path.
func possible(st *State) map[string]byteSet {
	out := map[string]byteSet{}
	st.conds(func(t *Term, holds bool) {
		b, s, ok := byteCond(t)
		if !ok {
			return
		}
		if !holds {
			s = s.not()
		}
		if o, has := out[b.key]; has {
			s = s.and(o)
		}
		out[b.key] = s
	})
	return out
}

func byteOf(st *State, b Val) byteSet {
	if i, ok := asInt(st.resolve(b)); ok && i >= 0 && i < 256 {
		return textSet(string([]byte{byte(i)}))
	}
	s := byteSet{}.not()
	if t, ok := stripConv(b).(*Term); ok {
		if p, has := possible(st)[t.key]; has {
			s = p
		}
		lo, hi := st.interval(t)
		for v := 0; v < 256; v++ {
			if int64(v) < lo || int64(v) > hi {
				s[v>>6] &^= 1 << (v & 63)
			}
		}
	}
	return s
}

func (l *lexer) hook(k *Call) ([]Outcome, bool) {
	st := k.St
	switch k.Name {
	case "bytes.IndexByte", "bytes.ContainsRune", "strings.IndexByte", "bytes.IndexRune", "strings.IndexRune", "strings.ContainsRune":
		if len(k.Args) != 2 {
			return nil, false
		}
		arg := st.resolve(k.Args[0])
		if !isString(valType(arg)) {
			arg = k.In.bytesTerm(st, arg)
		}
		set, ok := constBytes(arg)
		if !ok {
			return nil, false
		}
		b := st.resolve(k.Args[1])
		found, missing := Val(cInt(0)), Val(cInt(-1))
		if isBool(k.Sig.Results().At(0).Type()) {
			found, missing = cBool(true), cBool(false)
		}
		if i, ok := asInt(b); ok {
			if i >= 0 && i < 256 && strings.IndexByte(set, byte(i)) >= 0 {
				return []Outcome{{Res: found}}, true
			}
			return []Outcome{{Res: missing}}, true
		}
		bt, ok := stripConv(b).(*Term)
		if !ok {
			return nil, false
		}
		ts, now := textSet(set), byteOf(st, bt)
		cond := mk("in:"+set, tBool, bt)
		if len(set) == 1 {
			cond = mk("==", tBool, bt, cInt(int64(set[0])))
		}
		var out []Outcome
		if yes := now.and(ts); !yes.empty() {
			out = append(out, Outcome{Res: found, Do: func(s *State) bool {
				lo, hi := 255, 0
				for v := 0; v < 256; v++ {
					if yes.has(v) {
						lo, hi = min(lo, v), max(hi, v)
					}
				}
				s.setIv(bt, int64(lo), int64(hi))
				return s.assume(cond, true)
			}})
		}
		if !now.and(ts.not()).empty() {
			out = append(out, Outcome{Res: missing, Do: func(s *State) bool { return s.assume(cond, false) }})
		}
		return out, len(out) > 0
	}
	if set, ok := l.predicate(k); ok {
		bt, isT := stripConv(st.resolve(k.Args[0])).(*Term)
		if !isT {
			return nil, false
		}
		now := byteOf(st, bt)
		cond := mk("in:"+set.text(), tBool, bt)
		var out []Outcome
		if !now.and(set).empty() {
			out = append(out, Outcome{Res: cBool(true), Do: func(s *State) bool { return s.assume(cond, true) }})
		}
		if !now.and(set.not()).empty() {
			out = append(out, Outcome{Res: cBool(false), Do: func(s *State) bool { return s.assume(cond, false) }})
		}
		return out, len(out) > 0
	}
	switch k.Name {
	case "strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint":
		lo, hi, ok := l.span(st, k.In.bytesTerm(st, stripConv(st.resolve(k.Args[0]))))
		if !ok {
			return nil, false
		}
		a, okA := asInt(lo)
		b, okB := asInt(hi)
		if !okA || !okB || b-a > 15 {
			return nil, false
		}
		digits := b > a
		sign := false
		for i := a; i < b; i++ {
			s := byteOf(st, mk("idx", types.Typ[types.Byte], l.input, cInt(int64(i))))
			if !s.and(textSet("0123456789").not()).empty() {
				digits = false
			}
			if i == a && (s.has('-') || s.has('+')) {
				sign = true
			}
		}
		n := mk("number", k.Sig.Results().At(0).Type(), l.input, lo, hi)
		res := Outcome{Res: tuple(n, &Nil{tError}), Do: func(s *State) bool {
			low := int64(0)
			if sign {
				low = -int64(math.Pow10(b - a))
			}
			s.setIv(n, low, int64(math.Pow10(b-a))-1)
			return true
		}}
		if digits {
			return []Outcome{res}, true
		}
		return []Outcome{res, {Res: tuple(cInt(0), nonNilTerm(st, st.fresh("numerr", tError)))}}, true
	}
	return nil, false
}

// predicate: the bytes for which a function of one byte answers yes.
func (l *lexer) predicate(k *Call) (byteSet, bool) {
	f := k.Callee
	if f == nil || len(k.Args) != 1 || f.Signature.Recv() != nil || len(f.FreeVars) > 0 || f.Blocks == nil || f.Signature.Results().Len() != 1 ||
		!isBool(f.Signature.Results().At(0).Type()) || !strings.HasPrefix(pkgRel(f), "token") {
		return byteSet{}, false
	}
	b, ok := under(f.Signature.Params().At(0).Type()).(*types.Basic)
	if !ok || b.Kind() != types.Uint8 {
		return byteSet{}, false
	}
	if r, has := l.c.predicates[f]; has {
		return r.set, r.ok
	}
	if l.c.predicates == nil {
		l.c.predicates = map[*ssa.Function]predicateSet{}
	}
	r := predicateSet{ok: true}
	in := NewInterp(l.c.P)
	for v := 0; v < 256 && r.ok; v++ {
		st := l.c.P.NewState()
		st.frames = nil
		ps := in.Run(st, f, &Const{constant.MakeInt64(int64(v)), f.Signature.Params().At(0).Type()})
		if len(ps) != 1 || ps[0].Kind != "return" {
			r.ok = false
			break
		}
		yes, known := asBool(ps[0].St.resolve(ps[0].Res[0]))
		if !known {
			r.ok = false
		}
		if yes {
			r.set.add(v)
		}
	}
	l.c.predicates[f] = r
	return r.set, r.ok
}

type predicateSet struct {
	set byteSet
	ok  bool
}

func (s byteSet) text() string {
	var b []byte
	for v := 0; v < 256; v++ {
		if s.has(v) {
			b = append(b, byte(v))
		}
	}
	return string(b)
}

// span: the bounds of a part of the input.
func (l *lexer) span(st *State, v Val) (lo, hi Val, ok bool) {
	v = stripConv(v)
	if v.Key() == l.input.key {
		return cInt(0), st.resolve(mk("len", tInt, l.input)), true
	}
	if t, isT := v.(*Term); isT && t.Op == "slice" && len(t.A) == 3 && stripConv(t.A[0]).Key() == l.input.key {
		return st.resolve(t.A[1]), st.resolve(t.A[2]), true
	}
	return nil, nil, false
}

// lexObj finds the tokenizer's own state: the struct holding the input.
func (l *lexer) lexObj(st *State, v Val, depth int) int {
	p, ok := st.resolve(v).(*Ptr)
	if !ok || len(p.Path) > 0 || depth > 4 {
		return 0
	}
	s, ok := expand(st.get(p.Obj)).(*Struct)
	if !ok {
		return 0
	}
	for _, f := range s.F {
		if f != nil && st.resolve(f).Key() == l.input.key {
			return p.Obj
		}
	}
	for _, f := range s.F {
		if f == nil {
			continue
		}
		if o := l.lexObj(st, f, depth+1); o != 0 {
			return o
		}
	}
	return 0
}

type lexConf struct {
	name string
	v    *Struct // the tokenizer's state
	at   int     // where it stands
}

// check judges an obligation under the name the property gives the rule.
func (l *lexer) check(rule, construct string, ok bool, where, detail string, args ...any) {
	if l.rules != nil {
		if rule = l.rules[rule]; rule == "" {
			return
		}
	}
	l.c.Check(rule, construct, ok, where, detail, args...)
}

func (l *lexer) undecided(rule, construct, why string) {
	if l.rules == nil {
		l.c.Undecided(rule, construct, why)
	}
}

func (l *lexer) explore() {
	c := l.c
	in := l.interp()
	st := c.P.NewState()
	st.frames = nil
	l.input = sym("input", tBytes)
	nonNilTerm(st, l.input)
	var args []Val
	for _, p := range l.mk.Params {
		if isByteSlice(p.Type()) {
			args = append(args, l.input)
		} else {
			args = append(args, sym("arg:"+p.Name(), p.Type()))
		}
	}
	ps := in.Run(st, l.mk, args...)
	if len(ps) != 1 || ps[0].Kind != "return" {
		l.undecided("contiguous", l.name, "the constructor could not be evaluated")
		return
	}
	l.ptr = ps[0].Res[0]
	l.st = ps[0].St.clone()
	l.st.frames = nil
	l.obj = l.lexObj(l.st, l.ptr, 0)
	if l.obj == 0 {
		l.undecided("contiguous", l.name, "the tokenizer's state could not be found")
		return
	}
	first, _ := expand(l.st.get(l.obj)).(*Struct)
	// which numbers hold positions: those that stand at a token's end
	l.pos = map[int]bool{}
	seen := map[string]bool{}
	work := []lexConf{{"start", first, 0}}
	for len(work) > 0 && len(seen) < 80 {
		w := work[0]
		work = work[1:]
		work = append(work, l.step(w, seen)...)
	}
	if len(seen) >= 80 {
		l.undecided("contiguous", l.name, "more states than expected")
	}
}

const (
	lexBase   = 7
	lexRounds = 3
)

// stateName names a tokenizer state by the functions it holds.
func stateName(s *Struct) string {
	for _, f := range s.F {
		if cl, ok := f.(*Closure); ok {
			return cl.Fn.Name()
		}
	}
	return "state"
}

func (l *lexer) step(w lexConf, seen map[string]bool) []lexConf {
	c := l.c
	in := l.interp()
	st := l.st.clone()
	st.frames = nil
	st.set(l.obj, w.v)
	n := mk("len", tInt, l.input)
	st.setIv(n, int64(w.at), 1<<40)
	type fault struct{ kind, desc, where string }
	var faults []fault
	in.OnSite = func(s *State, x Site) {
		switch x.Kind {
		case "index", "index?", "slice", "slice?", "makeslice":
			for _, b := range possible(s) {
				if b.empty() {
					return
				}
			}
			faults = append(faults, fault{x.Kind, x.Desc, c.P.Pos(x.Instr.Pos())})
		case "overflow?":
			// a number of any size was read: was it compared with the bytes there are?
			known := false
			s.conds(func(t *Term, _ bool) {
				if t.Op != "<" && t.Op != "<=" {
					return
				}
				mine, there := false, false
				walk(t, func(v Val) bool {
					if v == nil {
						return true
					}
					mine = mine || v.Key() == x.V.Key()
					there = there || v.Key() == n.Key()
					return true
				})
				known = known || mine && there
			})
			if !known {
				faults = append(faults, fault{x.Kind, "the announced length is added without being compared with the input's: the sum can overflow", c.P.Pos(x.Instr.Pos())})
			}
		}
	}
	where := fmt.Sprintf("%s in %s", l.name, w.name)
	if w.at == 0 {
		where += " at the beginning"
	}
	ps := in.Run(st, l.next, l.ptr)
	c.use(in)
	if len(ps) >= in.MaxPaths {
		l.undecided("contiguous", where, "more paths than followed")
	}
	cut := 0
	var next []lexConf
	type done struct {
		p      Path
		lo, hi Val
		typ    int
	}
	var tokens []done
	bad := ""
	for _, p := range ps {
		feasible := true
		for _, s := range possible(p.St) {
			if s.empty() {
				feasible = false
			}
		}
		if !feasible {
			continue
		}
		switch p.Kind {
		case "trunc":
			cut++
			continue
		case "panic":
			bad = p.Where
			continue
		case "exit":
			continue
		}
		typ, okT := asInt(l.ask(p, "Type"))
		if !okT {
			l.undecided("contiguous", where, "the kind of the token could not be evaluated")
			continue
		}
		more := l.more0(p)
		name := fmt.Sprintf("%s: %s", where, l.kind(typ))
		switch typ {
		case l.tErr:
			l.check("error", name, more == 0, p.Where, "after an error more tokens are announced")
			l.rejected(name, p, w.at)
			continue
		case l.tEOF:
			b, known := p.St.truth(mk("<=", tBool, n, cInt(int64(w.at))))
			l.check("end", name, known && b && more == 0, p.Where, "the end of the stream is reported although input is left, or more is announced after it")
			continue
		}
		lo, hi, ok := l.span(p.St, in.bytesTerm(p.St, l.ask(p, "Value")))
		if !ok {
			v := in.bytesTerm(p.St, l.ask(p, "Value"))
			if s, isC := constBytes(v); isC && s == "" {
				l.check("progress", name, false, p.Where, "a token without any byte of the input")
				continue
			}
			if l.ofInput(v) {
				l.undecided("contiguous", name, "the token's value is not recognised as a part of the input: "+shortKey(v.Key()))
				continue
			}
			l.check("contiguous", name, false, p.Where, "the token's value is not a part of the input: %s", shortKey(v.Key()))
			continue
		}
		tokens = append(tokens, done{p, lo, hi, typ})
		a, _ := asInt(lo)
		at, okAt := asInt(p.St.resolve(l.ask(p, "Pos")))
		_, isC := lo.(*Const)
		l.check("contiguous", name, isC && a == w.at && okAt && at == w.at, p.Where, "the token begins at %s and says %v, the one before it ended at %d", shortKey(lo.Key()), at, w.at)
		b, known := p.St.truth(mk("<", tBool, cInt(int64(w.at)), hi))
		l.check("progress", name, known && b, p.Where, "the token ends at %s, where it began at %d", shortKey(hi.Key()), w.at)
		l.check("resumes", name+", announcing", more == 1, p.Where, "nothing more is announced after a token that does not end the stream")
		after, _ := expand(p.St.get(l.obj)).(*Struct)
		if after == nil {
			continue
		}
		// positions: numbers standing at the end of a token of two or more bytes
		if e, isE := asInt(hi); !isE || e >= w.at+2 {
			for i, f := range after.F {
				if f != nil && isInteger(valType(f)) && in.deep(p.St, f).Key() == hi.Key() {
					l.pos[i] = true
				}
			}
		}
		l.delimited(name, p, lo, hi, typ)
		if typ == l.tBin {
			l.binary(name, p, w.at, hi)
		} else if s := byteOf(p.St, mk("idx", types.Typ[types.Byte], l.input, cInt(int64(w.at)))); l.tBin >= 0 && l.mk.Name() == "NewLexer" && !s.has('+') && s == textSet("@") {
			l.check("binary", name, false, p.Where, "a field beginning with the binary mark is not taken by its length")
		}
	}
	for _, t := range tokens {
		after, _ := expand(t.p.St.get(l.obj)).(*Struct)
		if after == nil {
			continue
		}
		conf := &Struct{T: after.T, F: append([]Val(nil), after.F...)}
		name := fmt.Sprintf("%s: %s", where, l.kind(t.typ))
		var off []string
		for i := range conf.F {
			if l.pos[i] {
				v := in.deep(t.p.St, conf.F[i])
				if eq, known := t.p.St.compare(token.EQL, v, t.hi); !known || !eq {
					off = append(off, fmt.Sprintf("%s is %s", under(after.T).(*types.Struct).Field(i).Name(), shortKey(v.Key())))
				}
				conf.F[i] = &Const{constant.MakeInt64(lexBase), valType(conf.F[i])}
				continue
			}
			if f := l.st.get(l.obj); isChan(conf.F[i]) {
				if s, ok := expand(f).(*Struct); ok {
					if q, _, known := t.p.St.queue(conf.F[i]); known && len(q) > 0 {
						off = append(off, "a token is held back")
					}
					conf.F[i] = s.F[i]
				}
			}
		}
		l.check("resumes", name, len(off) == 0, t.p.Where, "the token ends at %s but %s", shortKey(t.hi.Key()), strings.Join(off, ", "))
		if len(off) > 0 {
			continue
		}
		if k := conf.Key(); !seen[k] {
			seen[k] = true
			next = append(next, lexConf{"after " + stateName(conf), conf, lexBase})
		}
	}
	msg, pos := bad, l.next.String()
	if len(faults) > 0 {
		msg, pos = faults[0].desc, faults[0].where
	}
	l.check("bounds", where, msg == "", pos, "%s", msg)
	c.note("%s: %d token paths, %d paths beyond the loop bound, truncated=%v", where, len(tokens), cut, in.Truncated)
	return next
}

func isChan(v Val) bool {
	if v == nil {
		return false
	}
	T := valType(v)
	if T == nil {
		return false
	}
	_, ok := under(T).(*types.Chan)
	return ok
}

// ask runs a parameterless method of the token a path returned.
func (l *lexer) ask(p Path, method string) Val {
	i, ok := p.St.resolve(p.Res[0]).(*Iface)
	var f *ssa.Function
	recv := p.Res[0]
	if ok {
		f, recv = l.c.P.MethodOpt(i.Dyn, method), i.V
	} else {
		f = l.c.P.MethodOpt(valType(p.Res[0]), method)
	}
	if f == nil {
		return sym("?", tInt)
	}
	in := NewInterp(l.c.P)
	st := p.St.clone()
	st.frames = nil
	qs := in.Run(st, f, recv)
	if len(qs) != 1 || qs[0].Kind != "return" || len(qs[0].Res) != 1 {
		return sym("?", tInt)
	}
	return qs[0].St.resolve(qs[0].Res[0])
}

// more0 asks whether more is announced: 1 yes, 0 no, -1 unknown.
func (l *lexer) more0(p Path) int {
	in := NewInterp(l.c.P)
	st := p.St.clone()
	st.frames = nil
	qs := in.Run(st, l.more, l.ptr)
	if len(qs) != 1 || qs[0].Kind != "return" {
		return -1
	}
	b, ok := asBool(qs[0].St.resolve(qs[0].Res[0]))
	if !ok {
		return -1
	}
	if b {
		return 1
	}
	return 0
}

// kind names a token type by its constant.
func (l *lexer) kind(t int) string {
	T := l.c.P.TypeNamed("token", "Type")
	for n, m := range l.c.P.Pkg("token").Members {
		if k, ok := m.(*ssa.NamedConst); ok && types.Identical(k.Type(), T) {
			if i, ok := constant.Int64Val(k.Value.Value); ok && int(i) == t {
				return n
			}
		}
	}
	return fmt.Sprint("token type ", t)
}

// delimited judges that a value ends where a delimiter follows, and that every
// delimiter is a token of its own.
func (l *lexer) delimited(name string, p Path, lo, hi Val, typ int) {
	if l.mk.Name() != "NewLexer" {
		return // statements are not made of delimited values
	}
	at := func(i Val) byteSet {
		return byteOf(p.St, mk("idx", types.Typ[types.Byte], l.input, i))
	}
	only := func(s byteSet, of string) bool { return !s.empty() && s.and(textSet(of).not()).empty() }
	kinds := map[string]string{"DATA_ELEMENT_SEPARATOR": "+", "GROUP_DATA_ELEMENT_SEPARATOR": ":", "SEGMENT_END_MARKER": "'"}
	if d, ok := kinds[l.kind(typ)]; ok {
		a, okA := asInt(lo)
		b, okB := asInt(hi)
		l.check("delimited", name, okA && okB && b == a+1 && only(at(lo), d), p.Where, "the delimiter %s stands for something else", d)
		return
	}
	in, known := p.St.truth(mk("<", tBool, hi, mk("len", tInt, l.input)))
	l.check("delimited", name, known && in && only(at(hi), "+:'"), p.Where, "a value ends at %s, where no delimiter is known to follow", shortKey(hi.Key()))
	if typ != l.tBin {
		l.unreleased(name, p, lo, hi)
	}
	l.check("delimited", name+", begin", at(lo).and(textSet("+:'")).empty(), p.Where, "a value begins with a delimiter")
}

func (l *lexer) byteAt(p Path, i int) byteSet {
	return byteOf(p.St, mk("idx", types.Typ[types.Byte], l.input, cInt(int64(i))))
}

// rejected judges an error: a released syntax character is no reason for it.
func (l *lexer) rejected(name string, p Path, a int) {
	if l.mk.Name() != "NewLexer" {
		return
	}
	last := -1
	for k := range possible(p.St) {
		for i := a; i < a+40; i++ {
			if i > last && k == mk("idx", types.Typ[types.Byte], l.input, cInt(int64(i))).key {
				last = i
			}
		}
	}
	if last <= a {
		return
	}
	n := mk("len", tInt, l.input)
	if end, known := p.St.truth(mk("<=", tBool, n, cInt(int64(last+1)))); known && end {
		return // the input ends
	}
	open := false
	for i := a; i < last; i++ {
		open = !open && l.byteAt(p, i) == textSet("?")
	}
	if !open {
		return
	}
	s := l.byteAt(p, last).and(textSet(syntaxChars))
	l.check("released", name, s.empty(), p.Where, "a text is rejected although the release character stands before %q", s.text())
}

// unreleased judges a value: the delimiters within it are released.
func (l *lexer) unreleased(name string, p Path, lo, hi Val) {
	a, okA := asInt(lo)
	b, okB := asInt(hi)
	if !okA || !okB {
		return
	}
	open := false
	for i := a; i < b; i++ {
		s := l.byteAt(p, i)
		if open {
			open = false
			continue
		}
		if s == textSet("?") {
			open = true
			continue
		}
		d := s.and(textSet("+:'"))
		l.check("released", name, d.empty(), p.Where, "the value goes on behind %q, which is not released", d.text())
	}
	l.check("released", name+", end", !open, p.Where, "the value ends behind a release character, with the released delimiter")
}

// binary judges a binary token beginning at a: its end is the announced length
// behind the second mark, and its content is not looked at.
func (l *lexer) binary(name string, p Path, a int, hi Val) {
	b, off := linear(hi)
	t, ok := b.(*Term)
	if !ok || t.Op != "number" {
		l.check("binary", name, false, p.Where, "the field ends at %s, which is not given by its announced length", shortKey(hi.Key()))
		return
	}
	lo, okL := asInt(t.A[1])
	end, okE := asInt(t.A[2])
	good := okL && okE && lo == a+1 && int(off) == end+1
	at := func(i int) byteSet {
		return byteOf(p.St, mk("idx", types.Typ[types.Byte], l.input, cInt(int64(i))))
	}
	good = good && at(a) == textSet("@") && at(end) == textSet("@")
	l.check("binary", name, good, p.Where, "the field ends at %s; expected the announced length behind the second '@'", shortKey(hi.Key()))
	looked := ""
	p.St.conds(func(k *Term, _ bool) {
		walk(k, func(v Val) bool {
			x, isT := v.(*Term)
			if !isT || x.Op != "idx" || stripConv(x.A[0]).Key() != l.input.key {
				return true
			}
			i, isC := asInt(x.A[1])
			if isC && i <= end || x.A[1].Key() == hi.Key() {
				return true
			}
			if isC {
				looked = x.Key()
				return true
			}
			if lt, known := p.St.truth(mk("<=", tBool, hi, x.A[1])); !known || !lt {
				looked = x.Key()
			}
			return true
		})
	})
	l.check("binary", name+", content", looked == "", p.Where, "the content of a binary field is looked at: %s", shortKey(looked))
}

// ofInput: the value is made from the input.
func (l *lexer) ofInput(v Val) bool {
	found := false
	walk(v, func(x Val) bool {
		if x != nil && x.Key() == l.input.key {
			found = true
		}
		return true
	})
	return found
}
