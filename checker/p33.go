package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P33"] = checkP33 }

// tok is a token as the tokenizer delivers it.
type tok struct {
	kind string
	text Val // of a value; delimiters have fixed texts
}

var tokText = map[string]string{
	"DATA_ELEMENT_SEPARATOR": "+", "GROUP_DATA_ELEMENT_SEPARATOR": ":", "SEGMENT_END_MARKER": "'",
	"SWIFT_TAG_SEPARATOR": "\r\n", "SWIFT_MESSAGE_SEPARATOR": "\r\n-", "SWIFT_DATASET_START": "\r\n",
}

func (t tok) value() Val {
	if t.text != nil {
		return t.text
	}
	return cStr(tokText[t.kind])
}

// splitter is something that takes a text apart at its delimiters.
type splitter struct {
	name   string
	fn     *ssa.Function // from text to pieces, or
	make   *ssa.Function // constructor and
	method *ssa.Function // method without parameters
	alpha  []string      // tokens that can occur
	rules  []splitRule   // it follows one of these
}

// splitRule says what the pieces of a stream of tokens are.
type splitRule struct {
	at       map[string]bool // delimiters that end a piece
	keep     bool            // and belong to it
	drop     map[string]bool // tokens that belong to no piece
	openEnd  bool            // the last piece needs no delimiter
	someOnly bool            // empty pieces do not count
	lastOpt  bool            // an empty piece before the end of a segment does not count
	oneAtAll bool            // nothing at all may be reported as an error
}

// want computes the pieces; bad means that an error must be reported.
func (r splitRule) want(ts []tok) (pieces [][]Val, bad bool) {
	var cur []Val
	n, open := 0, true
	for _, t := range ts {
		if t.kind == "ERROR" {
			return nil, true
		}
		open = true
		switch {
		case r.at[t.kind]:
			if r.keep {
				cur = append(cur, t.value())
			}
			empty := len(cur) == 0
			if !(empty && (r.someOnly || r.lastOpt && t.kind == "SEGMENT_END_MARKER")) {
				pieces = append(pieces, cur)
			}
			cur, n = nil, n+1
			open = !(t.kind == "SEGMENT_END_MARKER" || t.kind == "DATA_ELEMENT_SEPARATOR")
		case r.drop[t.kind]:
		default:
			cur = append(cur, t.value())
		}
	}
	if r.openEnd {
		if open {
			pieces = append(pieces, cur)
		}
		return pieces, false
	}
	return pieces, len(cur) > 0
}

type splitCheck struct {
	c     *Ctx
	kinds map[string]Val
}

// hook delivers the tokens instead of the tokenizer.
func (k *splitCheck) hook(ts []tok) func(*Call) ([]Outcome, bool) {
	return func(call *Call) ([]Outcome, bool) {
		st := call.St
		m := ""
		if call.Callee != nil && pkgRel(call.Callee) == "token" {
			m = call.Callee.Name()
		} else if call.Method != nil && strings.Contains(call.Name, "token.") {
			m = call.Method.Name()
		}
		all := ts
		pos := func(i int) Val {
			n := 0
			for j := 0; j < i && j < len(all); j++ {
				if all[j].text == nil {
					n += len(tokText[all[j].kind])
				} else if s, ok := asStr(all[j].text); ok {
					n += len(s)
				} else {
					n += 3
				}
			}
			return cInt(int64(n))
		}
		if x, ok := st.notes["added"]; ok {
			s, _ := asStr(x)
			all = append(append([]tok(nil), ts...), delims(s)...)
			if len(ts) > 0 && ts[len(ts)-1].kind == "ERROR" {
				all = ts
			}
		}
		switch {
		case strings.HasPrefix(m, "New") && strings.Contains(m, "Lexer"):
			for _, a := range call.Args {
				if !isByteSlice(valType(a)) {
					continue
				}
				ps := textParts(call.In.bytesTerm(st, a))
				var n []Val
				for _, t := range ts {
					n = append(n, t.value())
				}
				in := catOf(tBytes, n...)
				whole := textParts(in)
				// what is handed over is the text, perhaps with something behind it
				given := catOf(tBytes, ps...).Key()
				found := given == in.Key()
				for _, d := range []string{"+", "'", "+'"} {
					if !found && given == catOf(tBytes, append(append([]Val(nil), whole...), cStr(d))...).Key() {
						found = true
						st.notes["added"] = cStr(d)
					}
				}
				if !found {
					return []Outcome{{Panic: "the tokenizer is given " + given + " instead of " + in.Key()}}, true
				}
			}
			r := st.fresh("lexer", call.Sig.Results().At(0).Type())
			return []Outcome{{Res: r, Do: func(s *State) bool { nonNilTerm(s, r); return true }}}, true
		case m == "HasNext":
			i := noteInt(st, "token")
			more := i <= len(all)
			if i > 0 && i <= len(all) && all[i-1].kind == "ERROR" {
				more = false
			}
			return []Outcome{{Res: cBool(more)}}, true
		case m == "Next":
			i := noteInt(st, "token")
			if i > len(all) {
				return []Outcome{{Panic: "a token is asked for after the end"}}, true
			}
			r := sym(fmt.Sprintf("token%d", i), call.Sig.Results().At(0).Type())
			return []Outcome{{Res: r, Do: func(s *State) bool { bump(s, "token"); nonNilTerm(s, r); return true }}}, true
		}
		if r, ok := call.Recv.(*Term); ok && strings.HasPrefix(r.key, "token") {
			var i int
			fmt.Sscanf(r.key, "token%d", &i)
			t := tok{kind: "EOF", text: cStr("")}
			if i < len(all) {
				t = all[i]
			}
			switch m {
			case "Type":
				return []Outcome{{Res: k.kinds[t.kind]}}, true
			case "IsSyntaxSymbol":
				return []Outcome{{Res: cBool(t.text == nil)}}, true
			case "Pos":
				return []Outcome{{Res: pos(i)}}, true
			case "Value":
				return []Outcome{{Res: catOf(tBytes, t.value())}}, true
			}
		}
		return textHook(call)
	}
}

func delims(s string) (l []tok) {
	for _, ch := range s {
		for k, v := range tokText {
			if v == string(ch) {
				l = append(l, tok{kind: k})
			}
		}
	}
	return
}

// run hands a stream to a splitter.
func (k *splitCheck) run(s splitter, ts []tok) (*Interp, []Path) {
	c := k.c
	st := c.P.NewState()
	in := NewInterp(c.P)
	in.ConvFork = false
	in.MaxVisit = 12
	in.Hook = k.hook(ts)
	var vs []Val
	for _, t := range ts {
		v := t.value()
		if x, ok := v.(*Term); ok {
			st.setIv(mk("len", tInt, x), 3, 3)
		}
		vs = append(vs, v)
	}
	text := catOf(tBytes, vs...)
	var ps []Path
	if s.fn != nil {
		ps = in.Run(st, s.fn, text)
	} else {
		for _, p := range in.Run(st, s.make, text) {
			if p.Kind != "return" {
				ps = append(ps, p)
				continue
			}
			p.St.frames = nil
			ps = append(ps, in.Run(p.St, s.method, p.Res[0])...)
		}
	}
	c.use(in)
	return in, ps
}

// outcome renders what a splitter makes of a stream.
func (k *splitCheck) outcome(in *Interp, p Path) string {
	switch {
	case p.Kind != "return":
		return p.Kind + " " + p.Where
	case len(p.Res) == 2 && p.St.nilness(p.Res[1]) == 2:
		return "error"
	case len(p.Res) == 2 && p.St.nilness(p.Res[1]) != 1:
		return "perhaps an error"
	}
	return k.render(in, p.St, p.Res[0])
}

func (k *splitCheck) render(in *Interp, st *State, v Val) string {
	l, ok := in.parts(st, st.resolve(v))
	if !ok {
		if n, isN := st.resolve(v).(*Nil); isN {
			_ = n
			return "[]"
		}
		return "?" + v.Key()
	}
	var out []string
	for _, e := range l {
		if e.Spread {
			return "?" + e.V.Key()
		}
		out = append(out, showText(in.bytesTerm(st, e.V)))
	}
	return "[" + strings.Join(out, " | ") + "]"
}

func showText(v Val) string {
	s := ""
	for _, p := range wholeParts(textParts(v)) {
		if x, ok := asStr(p); ok {
			s += fmt.Sprintf("%q", x)
		} else if x, ok := constBytes(p); ok {
			s += fmt.Sprintf("%q", x)
		} else if t, isT := p.(*Term); isT && t.Op == "slice" && strings.HasSuffix(t.Key(), ",0,0)") {
			continue
		} else {
			s += p.Key()
		}
	}
	return strings.ReplaceAll(s, `""`, "")
}

// wholeParts puts the bytes of a value together that was copied byte by byte.
func wholeParts(ps []Val) (out []Val) {
	byteOf := func(v Val) (*Term, int, bool) {
		t, ok := v.(*Term)
		if !ok || t.Op != "byte1" || len(t.A) != 1 {
			return nil, 0, false
		}
		x, ok := stripConv(t.A[0]).(*Term)
		if !ok || x.Op != "idx" || len(x.A) != 2 {
			return nil, 0, false
		}
		b, ok := stripConv(x.A[0]).(*Term)
		i, isI := asInt(x.A[1])
		return b, i, ok && isI
	}
	for i := 0; i < len(ps); i++ {
		n := 0
		b, _, ok := byteOf(ps[i])
		for ok && n < 3 && i+n < len(ps) {
			x, at, isB := byteOf(ps[i+n])
			if !isB || at != n || x.Key() != b.Key() {
				break
			}
			n++
		}
		if n == 3 {
			out = append(out, b)
			i += 2
		} else {
			out = append(out, ps[i])
		}
	}
	return
}

func showPieces(ps [][]Val) string {
	var out []string
	for _, p := range ps {
		out = append(out, showText(catOf(tBytes, p...)))
	}
	return "[" + strings.Join(out, " | ") + "]"
}

func showStream(ts []tok) string {
	var l []string
	for _, t := range ts {
		if t.kind == "ERROR" {
			l = append(l, "ERROR")
		} else {
			l = append(l, showText(catOf(tBytes, t.value())))
		}
	}
	return strings.Join(l, " ")
}

func checkP33(c *Ctx) {
	c.Rule("pieces", "the pieces of a text are exactly what stands between its delimiters, in order, for every sequence of tokens", 100)
	c.Rule("rejected", "a text that the tokenizer cannot read, or whose last piece lacks its delimiter, is reported as an error", 100)
	c.Rule("lookup", "of the segments of a message, those with the id asked for are found, the first one or all of them in their order, and no others", 4)
	c.Rule("kept", "a piece that was found is not written to again while the next ones are read", 5)
	p := c.P
	k := &splitCheck{c: c, kinds: map[string]Val{}}
	T := p.TypeNamed("token", "Type")
	for n, m := range p.Pkg("token").Members {
		if x, ok := m.(*ssa.NamedConst); ok && (types.Identical(x.Type(), T) || strings.HasPrefix(n, "SWIFT_")) {
			k.kinds[n] = &Const{x.Value.Value, T}
		}
	}
	set := func(l ...string) map[string]bool {
		m := map[string]bool{}
		for _, s := range l {
			m[s] = true
		}
		return m
	}
	const D, G, S = "DATA_ELEMENT_SEPARATOR", "GROUP_DATA_ELEMENT_SEPARATOR", "SEGMENT_END_MARKER"
	hbci := []string{D, G, S, "ALPHA_NUMERIC"}
	group := splitRule{at: set(D, G, S), openEnd: true}
	joined := splitRule{at: set(D, S), openEnd: true}
	segm := splitRule{at: set(D, S), lastOpt: true, oneAtAll: true}
	msg := splitRule{at: set(S), keep: true}
	swift := []string{"SWIFT_TAG_SEPARATOR", "SWIFT_MESSAGE_SEPARATOR", "SWIFT_DATASET_START", "SWIFT_ALPHANUMERIC"}
	stm := splitRule{at: set("SWIFT_MESSAGE_SEPARATOR"), keep: true}
	tag := splitRule{at: set("SWIFT_TAG_SEPARATOR", "SWIFT_MESSAGE_SEPARATOR"), drop: set("SWIFT_DATASET_START"), someOnly: true}

	var todo []splitter
	for _, fn := range p.AllFuncs() {
		rel := pkgRel(fn)
		if fn.Parent() != nil || fn.Synthetic != "" || len(fn.Blocks) == 0 || fn.Signature.Recv() != nil || !isSplitter(fn.Signature) {
			continue
		}
		switch {
		case rel == "element" && fn.Object() != nil && fn.Object().Exported():
			todo = append(todo, splitter{name: "element." + fn.Name(), fn: fn, alpha: hbci, rules: []splitRule{group}})
		case rel == "element":
			todo = append(todo, splitter{name: "element." + fn.Name(), fn: fn, alpha: hbci, rules: []splitRule{group, joined}})
		case rel == "segment":
			todo = append(todo, splitter{name: "segment." + fn.Name(), fn: fn, alpha: hbci, rules: []splitRule{segm}})
		}
	}
	for _, rel := range []string{"message", "swift"} {
		for _, fn := range p.AllFuncs() {
			if pkgRel(fn) != rel || fn.Parent() != nil || fn.Synthetic != "" || fn.Signature.Recv() != nil || len(fn.Blocks) == 0 ||
				fn.Signature.Params().Len() != 1 || !isByteSlice(fn.Signature.Params().At(0).Type()) || fn.Signature.Results().Len() != 1 {
				continue
			}
			n := namedOf(fn.Signature.Results().At(0).Type())
			if n == nil {
				continue
			}
			m := p.MethodOpt(types.NewPointer(n), "Extract")
			if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 2 {
				continue
			}
			s := splitter{name: rel + "." + n.Obj().Name(), make: fn, method: m, alpha: swift, rules: []splitRule{tag}}
			if rel == "message" {
				s.alpha, s.rules = hbci, []splitRule{msg}
				k.lookup(n, s)
			} else if n.Obj().Exported() {
				s.rules = []splitRule{stm}
			}
			todo = append(todo, s)
		}
	}
	sort.Slice(todo, func(i, j int) bool { return todo[i].name < todo[j].name })
	for _, s := range todo {
		k.split(s)
	}
	k.kept()
}

// kept checks that no piece is written to after it has been put aside: the
// bytes of a buffer that was put aside are not used for the next piece.
func (k *splitCheck) kept() {
	c := k.c
	for _, fn := range c.P.AllFuncs() {
		if pkgRel(fn) == "" || len(fn.Blocks) == 0 || fn.Synthetic != "" {
			continue
		}
		var aside, cut, resets []ssa.Value
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Store:
					// an element of the argument list of append, or of a table of pieces
					if _, ok := i.Addr.(*ssa.IndexAddr); ok && isByteSlice(i.Val.Type()) {
						aside = append(aside, i.Val)
					}
				case *ssa.Slice:
					if i.High != nil && i.Max == nil && isByteSlice(i.X.Type()) && isByteSlice(i.Type()) && reused(i) {
						cut = append(cut, i)
					}
				case *ssa.Call:
					if bufferOf(i, "Reset", "Truncate") != nil {
						resets = append(resets, i)
					}
				}
			}
		}
		for _, v := range aside {
			from := bufSources(v)
			var again ssa.Value
			for _, x := range cut {
				for s := range bufSources(x.(*ssa.Slice).X) {
					if from[s] {
						again = x
					}
				}
			}
			for s := range from {
				if b := bufferOf(s, "Bytes"); b != nil {
					for _, r := range resets {
						if b == bufferOf(r, "Reset", "Truncate") {
							again = r
						}
					}
				}
			}
			w := c.P.Pos(v.Pos())
			if again != nil {
				w = c.P.Pos(again.Pos())
			}
			c.Check("kept", "piece in "+strings.ReplaceAll(fn.String(), modPath+"/", "")+" "+c.P.Pos(v.Pos()), again == nil, w, "the bytes of the piece are used again for the next one")
		}
	}
}

// bufferOf returns the bytes.Buffer that one of the methods is called on.
func bufferOf(v ssa.Value, names ...string) ssa.Value {
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	f := call.Call.StaticCallee()
	for _, n := range names {
		if f != nil && f.String() == "(*bytes.Buffer)."+n {
			return call.Call.Args[0]
		}
	}
	return nil
}

// bufSources lists the buffers that a value may be.
func bufSources(v ssa.Value) map[ssa.Value]bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		if _, ok := v.(*ssa.Const); ok {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.Slice:
			rec(x.X)
		case *ssa.ChangeType:
			rec(x.X)
		case *ssa.UnOp:
			if x.Op == token.MUL {
				for _, s := range cellStores(x.X) {
					rec(s)
				}
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				rec(x.Call.Args[0])
			}
		}
	}
	rec(v)
	return seen
}

// cellStores lists what is stored in a variable or field of the function.
func cellStores(a ssa.Value) (l []ssa.Value) {
	var fn *ssa.Function
	if i, ok := a.(ssa.Instruction); ok {
		fn = i.Parent()
	}
	if fn == nil {
		return nil
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if s, ok := i.(*ssa.Store); ok && sameCell(s.Addr, a) {
				l = append(l, s.Val)
			}
		}
	}
	return
}

func sameCell(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok && ok2 && x.Field == y.Field && types.Identical(x.X.Type(), y.X.Type())
}

// reused says whether something is written behind or over a part of a buffer.
func reused(s ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] || v.Referrers() == nil {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Phi:
				if rec(r) {
					return true
				}
			case *ssa.ChangeType:
				if rec(r) {
					return true
				}
			case *ssa.Call:
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && (b.Name() == "append" || b.Name() == "copy") && r.Call.Args[0] == v {
					return true
				}
			case *ssa.Store:
				if r.Val != v {
					continue
				}
				for _, b := range r.Parent().Blocks {
					for _, i := range b.Instrs {
						if u, ok := i.(*ssa.UnOp); ok && u.Op == token.MUL && sameCell(u.X, r.Addr) && rec(u) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return rec(s)
}

// tokStreams lists the sequences of tokens up to a length. A value is followed by
// a delimiter, unless the text ends with it.
func tokStreams(alpha []string, n int) (out [][]tok) {
	val := alpha[len(alpha)-1]
	var rec func(ts []tok)
	rec = func(ts []tok) {
		out = append(out, append([]tok(nil), ts...))
		out = append(out, append(append([]tok(nil), ts...), tok{kind: "ERROR", text: sym("rest", tBytes)}))
		if len(ts) == n {
			return
		}
		for _, a := range alpha {
			t := tok{kind: a}
			if a == val {
				if len(ts) > 0 && ts[len(ts)-1].kind == val {
					continue
				}
				t.text = sym(fmt.Sprintf("v%d", len(ts)), tBytes)
			}
			rec(append(ts[:len(ts):len(ts)], t))
		}
	}
	rec(nil)
	return
}

func (k *splitCheck) split(s splitter) {
	c := k.c
	fn := s.fn
	if fn == nil {
		fn = s.method
	}
	where := c.P.Pos(fn.Pos())
	type res struct {
		ts   []tok
		got  string
		want []string
		bad  bool
	}
	n := 5
	best := -1
	var verdicts [][]res
	all := tokStreams(s.alpha, n)
	outs := make([]string, len(all))
	for i, ts := range all {
		in, ps := k.run(s, ts)
		for _, p := range ps {
			o := k.outcome(in, p)
			if outs[i] != "" && outs[i] != o {
				o = outs[i] + " or " + o
			}
			outs[i] = o
		}
	}
	for _, r := range s.rules {
		var l []res
		wrong := 0
		for i, ts := range all {
			pieces, bad := r.want(ts)
			x := res{ts, outs[i], []string{showPieces(pieces)}, bad}
			if bad {
				x.want = []string{"error"}
			} else if len(pieces) == 0 && r.oneAtAll {
				x.want = append(x.want, "error")
			}
			if s.rules[0].someOnly && !bad {
				var some []string
				for _, w := range strings.Split(strings.TrimSuffix(strings.TrimPrefix(x.got, "["), "]"), " | ") {
					if w != "" {
						some = append(some, w)
					}
				}
				if strings.HasPrefix(x.got, "[") {
					x.got = "[" + strings.Join(some, " | ") + "]"
				}
			}
			l = append(l, x)
			ok := false
			for _, w := range x.want {
				ok = ok || w == x.got
			}
			if !ok {
				wrong++
			}
		}
		if best < 0 || wrong < best {
			best, verdicts = wrong, [][]res{l}
		}
	}
	for _, x := range verdicts[0] {
		ok := false
		for _, w := range x.want {
			ok = ok || w == x.got
		}
		rule := "pieces"
		if x.bad {
			rule = "rejected"
		}
		if strings.HasPrefix(x.got, "?") || strings.Contains(x.got, "perhaps") || strings.HasPrefix(x.got, "trunc") {
			c.Undecided(rule, s.name+" of "+showStream(x.ts), "the pieces are not known: "+x.got)
			continue
		}
		c.Check(rule, s.name+" of "+showStream(x.ts), ok, where, "gives %s, not %s", x.got, x.want[0])
	}
}

// lookup checks how segments are found by their id.
func (k *splitCheck) lookup(n *types.Named, s splitter) {
	c := k.c
	var ts []tok
	seg := func(id string, i int) {
		ts = append(ts, tok{"ALPHA_NUMERIC", cStr(id)}, tok{kind: "GROUP_DATA_ELEMENT_SEPARATOR"}, tok{"ALPHA_NUMERIC", sym(fmt.Sprintf("v%d", i), tBytes)}, tok{kind: "SEGMENT_END_MARKER"})
	}
	for i, id := range []string{"HKA", "HKB", "HKA", "HKAB", "HKB"} {
		seg(id, i)
	}
	show := func(l ...int) string {
		var p [][]Val
		for _, i := range l {
			var v []Val
			for _, t := range ts[4*i : 4*i+4] {
				v = append(v, t.value())
			}
			p = append(p, v)
		}
		return showPieces(p)
	}
	want := map[string][]int{"HKA": {0, 2}, "HKB": {1, 4}, "HKAB": {3}, "HK": nil, "KA": nil}
	var ids []string
	for id := range want {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, name := range []string{"FindSegment", "FindSegments"} {
		m := c.P.MethodOpt(types.NewPointer(n), name)
		if m == nil {
			continue
		}
		for _, id := range ids {
			st := c.P.NewState()
			in := NewInterp(c.P)
			in.ConvFork = false
			in.MaxVisit = 24
			in.Hook = k.hook(ts)
			var vs []Val
			for _, t := range ts {
				vs = append(vs, t.value())
			}
			got := ""
			for _, p := range in.Run(st, s.make, catOf(tBytes, vs...)) {
				if p.Kind != "return" {
					continue
				}
				ex := p.Res[0]
				p.St.frames = nil
				for _, q := range in.Run(p.St, s.method, ex) {
					if q.Kind != "return" {
						continue
					}
					q.St.frames = nil
					for _, r := range in.Run(q.St, m, ex, cStr(id)) {
						o := r.Kind
						if r.Kind == "return" {
							if name == "FindSegments" {
								o = k.render(in, r.St, r.Res[0])
							} else if _, isNil := r.St.resolve(r.Res[0]).(*Nil); isNil {
								o = "[]"
							} else {
								o = "[" + showText(in.bytesTerm(r.St, r.Res[0])) + "]"
							}
						}
						if got != "" && got != o {
							o = got + " or " + o
						}
						got = o
					}
				}
			}
			c.use(in)
			w := show(want[id]...)
			if name == "FindSegment" && len(want[id]) > 0 {
				w = show(want[id][0])
			}
			if got == "" || strings.HasPrefix(got, "?") {
				c.Undecided("lookup", name+" "+id, "result "+got)
				continue
			}
			c.Check("lookup", name+" "+id, got == w, c.P.Pos(m.Pos()), "finds %s, not %s", got, w)
		}
	}
}
