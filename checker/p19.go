package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P19"] = checkP19 }

// checkP19 decides that results do not depend on the order in which a map is
// traversed, on the clock or on randomness, and that what is sent depends on
// the latter two only where the protocol asks for it.
func checkP19(c *Ctx) {
	c.Rule("map order", "whatever leaves a loop over a map of the library is the same for every order of its elements", 2)
	c.Rule("clock", "no decoding or mapping function reaches a reading of the clock, of random numbers or of the environment", 150)
	c.Rule("sent", "in every message sent the clock shows only in the time stamp of the security headers (and the control reference)", 20)
	c.Rule("orders", "in an order the clock shows only in the start and end date, and there only where the caller left them open", 7)
	c.Rule("results", "no result of a client operation depends on the clock", 7)
	c.mapOrder()
	c.clockFreeDecoding()
	c.clockInMessages()
	c.clockInOrders()
}

// ---- order of maps

// loopBlocks are the blocks of the loop around header h.
func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	back := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !back[p] {
			back[p] = true
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		for _, p := range b.Preds {
			if !back[p] {
				back[p] = true
				work = append(work, p)
			}
		}
	}
	return back
}

func (c *Ctx) mapOrder() {
	for _, fn := range c.P.AllFuncs() {
		if !libraryPkg(fn) {
			continue
		}
		c.Funcs[fn.String()] = true
		for _, b := range fn.Blocks {
			for _, x := range b.Instrs {
				if r, ok := x.(*ssa.Range); ok {
					if _, isM := under(r.X.Type()).(*types.Map); isM {
						c.mapLoop(fn, r)
					}
				}
				if k, ok := x.(ssa.CallInstruction); ok {
					if g := k.Common().StaticCallee(); g != nil && g.Object() != nil && g.Object().Pkg() != nil {
						o := g
						if g.Origin() != nil {
							o = g.Origin()
						}
						switch n := o.Object().Pkg().Path() + "." + o.Name(); n {
						case "maps.Keys", "maps.Values", "maps.All", "reflect.MapKeys", "reflect.MapRange":
							v, _ := k.(ssa.Value)
							if v != nil && c.sortedAfter(fn, v, 0) {
								c.Check("map order", fn.String()+" "+n, true, c.P.Pos(k.Pos()), "")
								continue
							}
							if v != nil && collected(v) {
								c.Check("map order", fn.String()+" "+n, false, c.P.Pos(k.Pos()), "%s collects the elements of a map in the order of %s without sorting them", fn, n)
								continue
							}
							c.Undecided("map order", fn.String()+" "+n, "the elements of a map are traversed by a function")
						}
					}
				}
			}
		}
	}
}

// collected reports that a sequence is put into a slice.
func collected(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		if k, ok := r.(ssa.CallInstruction); ok {
			if g := k.Common().StaticCallee(); g != nil && strings.HasPrefix(g.Name(), "Collect") {
				return true
			}
		}
	}
	return false
}

// sortCall reports a call that sorts its argument.
func sortCall(k ssa.CallInstruction) bool {
	g := k.Common().StaticCallee()
	if g == nil {
		return false
	}
	o := g
	if g.Origin() != nil {
		o = g.Origin()
	}
	if o.Object() == nil || o.Object().Pkg() == nil {
		return false
	}
	switch o.Object().Pkg().Path() {
	case "sort":
		return true
	case "slices":
		return strings.HasPrefix(o.Name(), "Sort")
	}
	return false
}

// sortedAfter reports that a slice is handed to a sorting function.
func (c *Ctx) sortedAfter(fn *ssa.Function, v ssa.Value, depth int) bool {
	if depth > 6 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case ssa.CallInstruction:
			if sortCall(x) {
				return true
			}
			if y, ok := x.(ssa.Value); ok {
				if g := x.Common().StaticCallee(); g != nil && (strings.HasPrefix(g.Name(), "Collect") || strings.HasPrefix(g.Name(), "Concat")) && c.sortedAfter(fn, y, depth+1) {
					return true
				}
				if b, isB := x.Common().Value.(*ssa.Builtin); isB && b.Name() == "append" && c.sortedAfter(fn, y, depth+1) {
					return true
				}
			}
		case *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.Slice, *ssa.Phi, *ssa.MakeClosure:
			if c.sortedAfter(fn, x.(ssa.Value), depth+1) {
				return true
			}
		case *ssa.Store:
			// stored in a variable that is loaded and sorted
			if x.Val == v {
				if c.sortedVar(fn, x.Addr, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// sortedVar reports that what an address holds is loaded and sorted.
func (c *Ctx) sortedVar(fn *ssa.Function, addr ssa.Value, depth int) bool {
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL && sameAddr(u.X, addr) && c.sortedAfter(fn, u, depth+1) {
				return true
			}
		}
	}
	return false
}

func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok && ok2 && x.Field == y.Field && sameAddr(x.X, y.X)
}

// mapLoop judges one loop over a map.
func (c *Ctx) mapLoop(fn *ssa.Function, r *ssa.Range) {
	var next *ssa.Next
	for _, x := range *r.Referrers() {
		if n, ok := x.(*ssa.Next); ok {
			next = n
		}
	}
	where := c.P.Pos(r.Pos())
	lab := fmt.Sprintf("%s over %s", fn, r.X.Name())
	if g, ok := r.X.(*ssa.UnOp); ok {
		lab = fmt.Sprintf("%s over %s", fn, g.X.Name())
	}
	if next == nil {
		c.Check("map order", lab, true, where, "")
		return
	}
	body := loopBlocks(next.Block())
	// what differs between the rounds
	tainted := map[ssa.Value]bool{next: true}
	var key ssa.Value
	for _, x := range *next.Referrers() {
		if e, ok := x.(*ssa.Extract); ok && e.Index == 1 {
			key = e
		}
	}
	isKey := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Convert:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			case *ssa.MakeInterface:
				v = x.X
			default:
				return key != nil && v == key
			}
		}
	}
	local := func(a ssa.Value) bool { // memory made in this round
		for {
			switch x := a.(type) {
			case *ssa.FieldAddr:
				a = x.X
			case *ssa.IndexAddr:
				a = x.X
			case *ssa.Slice:
				a = x.X
			case *ssa.Alloc:
				return body[x.Block()]
			case *ssa.MakeSlice:
				return body[x.Block()]
			default:
				return tainted[a] // reached through the element itself
			}
		}
	}
	held := map[ssa.Value]bool{} // local memory that holds tainted values
	base := func(a ssa.Value) ssa.Value {
		for {
			switch x := a.(type) {
			case *ssa.FieldAddr:
				a = x.X
			case *ssa.IndexAddr:
				a = x.X
			case *ssa.Slice:
				a = x.X
			default:
				return a
			}
		}
	}
	for changed := true; changed; {
		changed = false
		mark := func(v ssa.Value) {
			if !tainted[v] {
				tainted[v] = true
				changed = true
			}
		}
		for b := range body {
			for _, x := range b.Instrs {
				if s, ok := x.(*ssa.Store); ok && tainted[s.Val] && local(s.Addr) && !held[base(s.Addr)] {
					held[base(s.Addr)] = true
					changed = true
				}
				v, ok := x.(ssa.Value)
				if !ok || tainted[v] {
					continue
				}
				if _, isPhi := v.(*ssa.Phi); isPhi && b == next.Block() {
					continue // carried around the loop: judged below
				}
				for _, o := range x.Operands(nil) {
					if *o != nil && (tainted[*o] || held[*o] || held[base(*o)]) {
						mark(v)
					}
				}
			}
		}
	}
	var bad, unsure []string
	complain := func(x ssa.Instruction, f string, a ...any) {
		if x != nil && x.Pos().IsValid() {
			where = c.P.Pos(x.Pos())
		}
		bad = append(bad, fmt.Sprintf(f, a...))
	}
	// memory written
	for b := range body {
		for _, x := range b.Instrs {
			switch y := x.(type) {
			case *ssa.Store:
				if !tainted[y.Val] || local(y.Addr) {
					continue
				}
				if commutes(y.Val, y.Addr) || isAppend(y.Val) && (c.sortedVar(fn, y.Addr, 0)) {
					continue
				}
				complain(y, "stores what the order of the map selects in %s", y.Addr.Name())
			case *ssa.MapUpdate:
				if !tainted[y.Value] || isKey(y.Key) || local(y.Map) {
					continue
				}
				unsure = append(unsure, "a map is filled under other keys")
			case *ssa.Send:
				complain(y, "sends in the order of the map")
			case ssa.CallInstruction:
				g := y.Common().StaticCallee()
				if _, isB := y.Common().Value.(*ssa.Builtin); isB {
					continue
				}
				if printCall(y) {
					continue
				}
				args := y.Common().Args
				anyT := false
				for _, a := range args {
					anyT = anyT || tainted[a] || held[base(a)]
				}
				if !anyT {
					continue
				}
				if y.Common().IsInvoke() && !tainted[y.Common().Value] || g != nil && g.Signature.Recv() != nil && !tainted[args[0]] {
					name := ""
					if g != nil {
						name = g.Name()
					} else {
						name = y.Common().Method.Name()
					}
					if strings.HasPrefix(name, "Write") || name == "Encode" {
						complain(y, "writes the elements of the map in their order (%s)", name)
						continue
					}
					if g == nil || c.P.InRepo(g) && !c.pure(g) {
						unsure = append(unsure, "calls "+name)
					}
				} else if g != nil && c.P.InRepo(g) && !c.pure(g) {
					unsure = append(unsure, "calls "+g.Name())
				}
			}
		}
	}
	// values carried around the loop
	for _, x := range next.Block().Instrs {
		phi, ok := x.(*ssa.Phi)
		if !ok {
			continue
		}
		for i, e := range phi.Edges {
			if !body[next.Block().Preds[i]] || !dependsOn(e, tainted, phi, map[ssa.Value]bool{}) {
				continue
			}
			if why := c.carried(fn, phi, e, body, tainted, r); why != "" {
				complain(phi, "%s", why)
			}
		}
	}
	// leaving the loop early
	for b := range body {
		if b == next.Block() || len(b.Succs) != 2 {
			continue
		}
		for _, s := range b.Succs {
			if body[s] {
				continue
			}
			cond, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if cond != nil && c.uniqueKey(cond.Cond, isKey, tainted) {
				continue
			}
			if v := usedAfter(s, b, body, tainted); v != nil && isError(v.Type()) {
				unsure = append(unsure, "reports the error of the element that happens to come first")
			} else if v != nil {
				complain(cond, "leaves the loop with the element that happens to come first")
			}
		}
	}
	sort.Strings(bad)
	if len(bad) == 0 && len(unsure) > 0 {
		sort.Strings(unsure)
		c.Undecided("map order", lab, strings.Join(unsure, "; "))
		return
	}
	c.Check("map order", lab, len(bad) == 0, where, "%s: %s", lab, strings.Join(bad, "; "))
}

func isAppend(v ssa.Value) bool {
	k, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := k.Common().Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

var commutative = map[token.Token]bool{token.ADD: true, token.MUL: true, token.AND: true, token.OR: true, token.XOR: true}

func numericOp(b *ssa.BinOp) bool {
	t, ok := under(b.Type()).(*types.Basic)
	return ok && t.Info()&(types.IsInteger|types.IsBoolean) != 0 && commutative[b.Op]
}

// commutes reports a sum kept in memory.
func commutes(v, addr ssa.Value) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || !numericOp(b) {
		return false
	}
	for _, o := range []ssa.Value{b.X, b.Y} {
		if u, ok := o.(*ssa.UnOp); ok && u.Op == token.MUL && sameAddr(u.X, addr) {
			return true
		}
	}
	return false
}

// dependsOn reports that a carried value depends on the element of the round.
func dependsOn(v ssa.Value, tainted map[ssa.Value]bool, stop *ssa.Phi, seen map[ssa.Value]bool) bool {
	if v == ssa.Value(stop) || seen[v] {
		return false
	}
	seen[v] = true
	if tainted[v] {
		return true
	}
	if phi, ok := v.(*ssa.Phi); ok {
		for _, e := range phi.Edges {
			if dependsOn(e, tainted, stop, seen) {
				return true
			}
		}
	}
	return false
}

// carried judges a value that is carried around the loop; the result says why
// it depends on the order of the rounds.
func (c *Ctx) carried(fn *ssa.Function, phi *ssa.Phi, e ssa.Value, body map[*ssa.BasicBlock]bool, tainted map[ssa.Value]bool, r *ssa.Range) string {
	seen := map[ssa.Value]bool{}
	var judge func(v ssa.Value) string
	judge = func(v ssa.Value) string {
		if v == ssa.Value(phi) || seen[v] || !dependsOn(v, tainted, phi, map[ssa.Value]bool{}) && !isAppend(v) {
			return ""
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, a := range x.Edges {
				if w := judge(a); w != "" {
					return w
				}
			}
			return ""
		case *ssa.BinOp:
			if numericOp(x) {
				if carriedIn(x.X, phi) && !carriedIn(x.Y, phi) || carriedIn(x.Y, phi) && !carriedIn(x.X, phi) {
					return ""
				}
			}
			return "carries " + x.Op.String() + " of the elements around the loop"
		case *ssa.Call:
			if isAppend(x) {
				if c.sortedAfter(fn, phi, 0) || c.replacerOnly(phi, body, r, 0) || lengthOnly(phi, body) {
					return ""
				}
				return "collects the elements in the order of the map"
			}
			if g := x.Common().StaticCallee(); g != nil && (g.Name() == "Replace" || g.Name() == "ReplaceAll") && g.Pkg != nil && g.Pkg.Pkg.Path() == "strings" && c.disjointTable(r) {
				return ""
			}
			if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "max" || b.Name() == "min") {
				return ""
			}
			return "carries the result of a call for each element around the loop"
		}
		// the greatest or smallest element
		if extremum(v, phi) {
			return ""
		}
		return "keeps the element that happens to come last"
	}
	return judge(e)
}

// carriedIn reports that v is the carried value or computed from it.
func carriedIn(v ssa.Value, phi *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var f func(ssa.Value) bool
	f = func(v ssa.Value) bool {
		if v == ssa.Value(phi) {
			return true
		}
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.BinOp:
			return f(x.X) || f(x.Y)
		case *ssa.Phi:
			for _, e := range x.Edges {
				if f(e) {
					return true
				}
			}
		}
		return false
	}
	return f(v)
}

// extremum reports that v is compared with the carried value.
func extremum(v ssa.Value, phi *ssa.Phi) bool {
	if v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		b, ok := r.(*ssa.BinOp)
		if !ok {
			continue
		}
		switch b.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			if b.X == v && carriedIn(b.Y, phi) || b.Y == v && carriedIn(b.X, phi) {
				return true
			}
		}
	}
	return false
}

// lengthOnly reports that only the length of a slice is used.
func lengthOnly(phi *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	for _, r := range *phi.Referrers() {
		if k, ok := r.(*ssa.Call); ok {
			if b, isB := k.Common().Value.(*ssa.Builtin); isB && (b.Name() == "len" || b.Name() == "append" && body[k.Block()]) {
				continue
			}
		}
		if _, ok := r.(*ssa.Phi); ok {
			continue
		}
		if _, ok := r.(*ssa.DebugRef); ok {
			continue
		}
		return false
	}
	return true
}

// replacerOnly reports that a slice of pairs goes only into a replacer whose
// keys exclude each other.
func (c *Ctx) replacerOnly(v ssa.Value, body map[*ssa.BasicBlock]bool, r *ssa.Range, depth int) bool {
	if depth > 4 {
		return false
	}
	n := 0
	for _, x := range *v.Referrers() {
		switch y := x.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
		case *ssa.Call:
			if b, isB := y.Common().Value.(*ssa.Builtin); isB && (b.Name() == "append" && body[y.Block()] || b.Name() == "len") {
				continue
			}
			g := y.Common().StaticCallee()
			if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "strings" || g.Name() != "NewReplacer" {
				return false
			}
			n++
		case *ssa.Slice, *ssa.ChangeType:
			if !c.replacerOnly(y.(ssa.Value), body, r, depth+1) {
				return false
			}
			n++
		default:
			return false
		}
	}
	return n > 0 && c.equalKeys(r)
}

// table is the content of the package-level map a loop runs over.
func (c *Ctx) table(r *ssa.Range) (ks, vs []string, ok bool) {
	u, isU := r.X.(*ssa.UnOp)
	if !isU {
		return
	}
	g, isG := u.X.(*ssa.Global)
	if !isG {
		return
	}
	st := c.P.NewState()
	o, known := c.P.Globals[g]
	if !known {
		return
	}
	m, isM := st.get(o).(*MapRef)
	if !isM {
		return
	}
	mc, isC := st.get(m.Obj).(*MapC)
	if !isC || mc.Base != nil {
		return
	}
	for _, e := range mc.E {
		k, ok1 := asStr(e.K)
		v, ok2 := asStr(e.V)
		if !ok1 || !ok2 {
			return nil, nil, false
		}
		ks, vs = append(ks, k), append(vs, v)
	}
	return ks, vs, true
}

// equalKeys reports that all keys have the same length: at most one matches at
// any place.
func (c *Ctx) equalKeys(r *ssa.Range) bool {
	ks, _, ok := c.table(r)
	for _, k := range ks {
		if len(k) != len(ks[0]) || k == "" {
			return false
		}
	}
	return ok
}

// disjointTable reports that replacing one entry cannot affect another.
func (c *Ctx) disjointTable(r *ssa.Range) bool {
	ks, vs, ok := c.table(r)
	if !ok {
		return false
	}
	for _, k := range ks {
		if len(k) != 1 {
			return false
		}
		for _, v := range vs {
			if strings.Contains(v, k) {
				return false
			}
		}
	}
	return true
}

// uniqueKey reports a condition that holds for at most one key.
func (c *Ctx) uniqueKey(v ssa.Value, isKey func(ssa.Value) bool, tainted map[ssa.Value]bool) bool {
	b, ok := v.(*ssa.BinOp)
	if !ok || b.Op != token.EQL && b.Op != token.NEQ {
		return false
	}
	return isKey(b.X) && !tainted[b.Y] || isKey(b.Y) && !tainted[b.X]
}

// usedAfter finds a value of the round that is used behind an early exit.
func usedAfter(s, from *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, tainted map[ssa.Value]bool) ssa.Value {
	seen := map[*ssa.BasicBlock]bool{}
	var f func(b *ssa.BasicBlock, pred *ssa.BasicBlock) ssa.Value
	f = func(b, pred *ssa.BasicBlock) ssa.Value {
		for _, x := range b.Instrs {
			if phi, ok := x.(*ssa.Phi); ok {
				for i, p := range b.Preds {
					if p == pred && tainted[phi.Edges[i]] {
						return phi
					}
				}
				continue
			}
			if k, ok := x.(ssa.CallInstruction); ok && printCall(k) {
				continue
			}
			for _, o := range x.Operands(nil) {
				if *o != nil && tainted[*o] {
					if v, isV := x.(ssa.Value); isV && onlyPrinted(v, 0) {
						continue
					}
					return *o
				}
			}
		}
		for _, n := range b.Succs {
			if !seen[n] && !body[n] {
				seen[n] = true
				if v := f(n, b); v != nil {
					return v
				}
			}
		}
		return nil
	}
	return f(s, from)
}

// pure reports a function of the repository without effects on memory it did
// not make itself.
func (c *Ctx) pure(fn *ssa.Function) bool { return c.pureIn(fn, map[*ssa.Function]bool{}) }

func (c *Ctx) pureIn(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	out, _ := c.P.callGraph()
	for _, b := range fn.Blocks {
		for _, x := range b.Instrs {
			switch y := x.(type) {
			case *ssa.Store:
				a := y.Addr
				for {
					if f, ok := a.(*ssa.FieldAddr); ok {
						a = f.X
						continue
					}
					if f, ok := a.(*ssa.IndexAddr); ok {
						a = f.X
						continue
					}
					if f, ok := a.(*ssa.Slice); ok {
						a = f.X
						continue
					}
					break
				}
				switch a.(type) {
				case *ssa.Alloc, *ssa.MakeSlice:
				default:
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go:
				return false
			case ssa.CallInstruction:
				for _, g := range out[y] {
					if c.P.InRepo(g) && !c.pureIn(g, seen) {
						return false
					}
				}
			}
		}
	}
	return true
}

// ---- clock and randomness

// ambient reports a function whose result depends on when or where it is called.
func ambient(fn *ssa.Function) string {
	if fn == nil || fn.Object() == nil || fn.Object().Pkg() == nil {
		return ""
	}
	p, n := fn.Object().Pkg().Path(), fn.Name()
	switch p {
	case "time":
		switch n {
		case "Now", "Since", "Until", "After", "Tick", "NewTimer", "NewTicker":
			if fn.Signature.Recv() == nil {
				return p + "." + n
			}
		}
	case "math/rand", "math/rand/v2", "crypto/rand":
		return p + "." + n
	case "os":
		switch n {
		case "Getenv", "LookupEnv", "Environ", "Hostname", "Getpid", "Getwd":
			return p + "." + n
		}
	}
	return ""
}

// timeOnly reports a value that goes nowhere but into durations and log output.
func timeOnly(v ssa.Value, depth int) bool {
	if depth > 8 || v.Referrers() == nil {
		return depth > 0
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			if printCall(x) {
				continue
			}
			g := x.Common().StaticCallee()
			y, isV := x.(ssa.Value)
			if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "time" || !isV || !timeOnly(y, depth+1) {
				return false
			}
		case *ssa.MakeInterface, *ssa.Convert, *ssa.ChangeType, *ssa.Slice, *ssa.BinOp:
			if !timeOnly(x.(ssa.Value), depth+1) {
				return false
			}
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok || x.Val != v || !timeOnly(ia.X, depth+1) {
				return false
			}
		case *ssa.IndexAddr:
		default:
			return false
		}
	}
	return true
}

// decoding reports a function that decodes or maps what it is given.
func decoding(fn *ssa.Function) bool {
	if !exportedFn(fn) || !libraryPkg(fn) {
		return false
	}
	n := fn.Name()
	for _, pre := range []string{"Unmarshal", "Extract", "Val", "Parse"} {
		if strings.HasPrefix(n, pre) {
			return true
		}
	}
	sg := fn.Signature
	switch rel := pkgRel(fn); rel {
	case "element", "segment", "swift", "domain", "message", "token":
		if sg.Recv() != nil {
			// accessors
			return sg.Params().Len() == 0 && sg.Results().Len() > 0 && !strings.HasPrefix(n, "Generate") && !strings.HasPrefix(n, "New")
		}
		if rel == "token" || rel == "swift" {
			return true
		}
		if strings.HasPrefix(n, "New") && (rel == "element" || rel == "segment") {
			return false // what is sent is looked at below
		}
		for i := 0; i < sg.Params().Len(); i++ { // functions of bytes
			if isByteSlice(sg.Params().At(i).Type()) && !strings.HasPrefix(n, "Encrypt") && !strings.HasPrefix(n, "Sign") {
				return true
			}
		}
	case "iban", "charset", "bankinfo":
		return true
	}
	return false
}

func (c *Ctx) clockFreeDecoding() {
	out, in := c.P.callGraph()
	// functions that reach a reading of the clock, with the way there
	reach := map[*ssa.Function]string{}
	var work []*ssa.Function
	for _, fn := range c.P.AllFuncs() {
		if !libraryPkg(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, x := range b.Instrs {
				if k, ok := x.(ssa.CallInstruction); ok {
					for _, g := range out[k] {
						a := ambient(g)
						if a == "" || reach[fn] != "" {
							continue
						}
						if v, isV := k.(ssa.Value); isV && timeOnly(v, 0) {
							continue
						}
						reach[fn] = fn.Name() + " calls " + a + " at " + c.P.Pos(k.Pos())
						work = append(work, fn)
					}
				}
				for _, o := range x.Operands(nil) {
					if g, ok := (*o).(*ssa.Global); ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "crypto/rand" && reach[fn] == "" {
						reach[fn] = fn.Name() + " uses crypto/rand." + g.Name() + " at " + c.P.Pos(x.Pos())
						work = append(work, fn)
					}
				}
			}
		}
	}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		for _, k := range in[f] {
			g := k.Parent()
			for g != nil {
				if reach[g] == "" {
					reach[g] = g.Name() + " > " + reach[f]
					work = append(work, g)
				}
				g = g.Parent()
			}
		}
	}
	for _, fn := range c.P.AllFuncs() {
		if decoding(fn) {
			c.Funcs[fn.String()] = true
			c.Check("clock", fn.String(), reach[fn] == "", c.P.Pos(fn.Pos()), "%s", reach[fn])
		}
	}
}

// ambientIn lists the readings of clock, random numbers or environment in a value.
func ambientIn(v Val) (out []string) {
	seen := map[string]bool{}
	walk(v, func(x Val) bool {
		if t, ok := x.(*Term); ok {
			for _, p := range []string{"call:time.Now", "call:time.Since", "call:time.Until", "call:math/rand", "call:(*math/rand", "call:crypto/rand", "call:os.Getenv", "call:os.Getpid", "call:os.Hostname", "global:crypto/rand"} {
				if strings.HasPrefix(t.Op, p) && !seen[p] {
					seen[p] = true
					out = append(out, strings.TrimPrefix(p, "call:"))
				}
			}
		}
		return true
	})
	sort.Strings(out)
	return
}

// clockInMessages looks at every field of every segment sent by the dialog operations.
func (c *Ctx) clockInMessages() {
	for _, v := range dialogVersions {
		for _, o := range dialogOps {
			lab := v + " " + o.name
			sc := scenario{label: lab, op: o.name, version: v, acks: okAcks, present: 0}
			d, st := c.realDlg(sc)
			sts, _ := d.step([]*State{st}, "SetPin", func(s *State) []Val {
				t := sym("pin:1", tString)
				s.assume(mk("==", tBool, t, cStr("")), false)
				return []Val{t}
			})
			_, ps := d.step(sts, o.name, func(s *State) []Val {
				if o.order {
					cs := c.P.TypeNamed("segment", "ClientSegment")
					o1 := sym("order:1", cs)
					nonNilTerm(s, o1)
					return []Val{d.order(s, o1)}
				}
				return nil
			})
			n, stamps := 0, 0
			done := map[string]bool{}
			for _, p := range ps {
				if p.Kind != "return" {
					continue
				}
				for _, m := range d.sent(p) {
					where := c.P.Pos(m.ev.Pos)
					segs := append(append([]*segMar(nil), m.segs...), m.inner...)
					if m.enc == nil {
						segs = append(segs, d.payload(p, m)...)
					}
					for _, s := range segs {
						dk := s.id + keyOf(s.seg)
						if done[dk] {
							continue
						}
						done[dk] = true
						for _, q := range c.texts(s.ev.St, s.seg) {
							if q.Kind != "return" {
								continue
							}
							n++
							for i, f := range wireFields(q.Res[0]) {
								var amb []string
								for _, x := range f {
									amb = append(amb, ambientIn(x)...)
								}
								if len(amb) == 0 {
									continue
								}
								ok := false
								if s.id == "HNSHK" || s.id == "HNVSK" {
									cs := components(f)
									if len(cs) > 1 && len(cs[0]) == 1 {
										_, isConst := asStr(cs[0][0])
										ok = isConst // a date with its designator
									}
									ok = ok || s.id == "HNSHK" && (i == 2 || i == 3) && len(cs) == 1
								}
								ok = ok || s.id == "HNSHA" && i == 1
								stamps++
								c.Check("sent", fmt.Sprintf("%s, %s field %d", lab, s.id, i), ok, where, "field %d of segment %s sent by %s depends on %s", i, s.id, lab, strings.Join(amb, ", "))
							}
						}
					}
				}
			}
			if n == 0 {
				c.Undecided("sent", lab, "no segment could be written")
				continue
			}
			c.Check("sent", lab+" without the clock elsewhere", true, "-", "")
		}
	}
}

// clockInOrders looks at the orders and the results of the client operations.
func (c *Ctx) clockInOrders() {
	for _, op := range []string{"AccountTransactions", "SepaAccountTransactions", "AccountBalances", "SepaAccountBalances", "Status", "AccountInformation", "CommunicationAccess"} {
		id := orderOf[op]
		fn := c.P.MethodOpt(types.NewPointer(c.P.TypeNamed("client", "Client")), op)
		if fn == nil {
			fn = c.P.Method("client", "AnonymousClient", op)
		}
		where := c.P.Pos(fn.Pos())
		for v := int64(1); v <= 12; v++ {
			x, st := c.newCli()
			x.client(st)
			x.acks = benignAcks
			x.listed = []vseg{{paramsID(id), v}}
			a := clientArgs(st, fn)
			seen := 0
			for _, p := range x.run(st, op, a.vals...) {
				if p.Kind != "return" {
					continue
				}
				seen++
				if p.success() {
					for _, r := range p.Res {
						amb := ambientIn(x.in.deep(p.St, r))
						c.Check("results", fmt.Sprintf("%s, version %d", op, v), len(amb) == 0, where, "the result of %s depends on %s", op, strings.Join(amb, ", "))
					}
				}
				for _, o := range x.orders(p) {
					for _, s := range o.segs {
						for _, q := range c.texts(o.ev.St, s) {
							if q.Kind != "return" {
								continue
							}
							sid := x.segID(o.ev.St, s)
							for i, f := range wireFields(q.Res[0]) {
								var amb []string
								for _, y := range f {
									amb = append(amb, ambientIn(y)...)
								}
								if len(amb) == 0 {
									continue
								}
								ok := false
								for _, r := range []string{"from", "to"} {
									if sid == id && wirePos[id][r] == i && i > 0 && a.role[r] != nil {
										// only where the caller left the date open
										ok = decidedOn(q.St, a.role[r]) && !onlyNonZero(q.St, a.role[r])
									}
								}
								c.Check("orders", fmt.Sprintf("%s, version %d, %s field %d", op, v, sid, i), ok, where, "field %d of %s sent by %s depends on %s", i, sid, op, strings.Join(amb, ", "))
							}
						}
					}
				}
			}
			if seen > 0 {
				c.Check("orders", fmt.Sprintf("%s, version %d", op, v), true, where, "")
			}
			if v == 1 && (op == "AccountInformation" || op == "CommunicationAccess") {
				break
			}
		}
	}
}
