package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P20"] = checkP20 }

const wireCharset = "ISO8859_1"

// checkP20 decides that text is converted to and from the character set of the
// wire exactly once, in the packages that encode and decode, and that sizes
// are those of the converted bytes.
func checkP20(c *Ctx) {
	c.Rule("written", "every text value handed to a constructor or setter of an element or segment reaches the wire converted to ISO 8859-1 exactly once", 60)
	c.Rule("read", "every text a decoder stores was converted from ISO 8859-1 exactly once", 10)
	c.Rule("statements", "every text of an account statement that may contain letters is stored converted from ISO 8859-1 exactly once", 40)
	c.Rule("lengths", "a binary value is announced with the number of the bytes sent, which are not converted; the size of a message is that of the bytes of its segments", 20)
	c.Rule("outside", "between the codec and the bank, and between the codec and the caller, nothing is converted again", 4)
	c.writtenTexts(func(w writtenText) {
		if w.binary {
			c.Check("lengths", w.where(), w.framed, w.pos, "%s writes the bytes %s as %s", w.lab, w.leaf, w.form)
			return
		}
		if w.unknown != "" {
			c.Undecided("written", w.where(), "the text passes "+w.unknown)
			return
		}
		c.Check("written", w.where(), once("enc:", w.encs), w.pos, "%s writes the text %s with conversions %v", w.lab, w.leaf, w.encs)
	})
	c.readTexts(func(r readText) {
		if r.binary {
			c.Check("lengths", "read "+r.where(), len(r.decs) == 0, r.pos, "%s stores the bytes of %s with conversions %v", r.lab, r.field, r.decs)
			return
		}
		if r.unknown != "" {
			c.Undecided("read", r.where(), "the text passes "+r.unknown)
			return
		}
		c.Check("read", r.where(), once("dec:", r.decs), r.pos, "%s stores the text of %s with conversions %v", r.lab, r.field, r.decs)
	})
	c.statementTexts()
	c.statementData()
	c.sizes()
	c.conversionsOutside()
}

func once(dir string, l []string) bool { return len(l) == 1 && l[0] == dir+wireCharset }

// statementTexts counts the conversions of the fields of every kind of tag.
func (c *Ctx) statementTexts() {
	c.swiftTags(func(typ, lab string, parts []Val, w want) {
		text := map[string]bool{}
		for _, p := range parts {
			if t, ok := p.(*Term); ok && isFld(t) && fldOf(t).class == "t" {
				text[fldOf(t).name] = true
			}
		}
		if len(text) == 0 {
			return
		}
		n, ps := c.tagValue(typ, false, parts...)
		where := c.P.Pos(n.Obj().Pos())
		lab = typ + " " + lab
		in := c.tagInterp()
		for _, q := range ps {
			if cond, feasible := unevaluated(q); q.Kind != "return" || q.failed() || !feasible || cond != "" {
				continue // whether a tag is accepted is decided elsewhere
			}
			s := structOf(q.St, &Ptr{Obj: q.obj})
			if s == nil {
				c.Undecided("statements", lab, "no attributes")
				continue
			}
			found := map[string][]string{}
			conversionsOf(in.deep(q.St, s), nil, func(f fldInfo, decs []string) {
				k := f.name
				if _, dup := found[k]; !dup || !once("dec:", decs) {
					found[k] = append([]string{}, decs...)
				}
			})
			for k := range text {
				decs, ok := found[k]
				if !ok {
					continue // not stored
				}
				c.Check("statements", lab+"/"+k, once("dec:", decs), where, "%s: the text %s is stored with conversions %v", lab, k, decs)
			}
		}
	})
}

// statementData counts the conversions of the data as a whole before its tags are read.
func (c *Ctx) statementData() {
	for _, n := range c.P.typesWith("swift", "UnmarshalMT940") {
		m := c.P.MethodOpt(types.NewPointer(n), "UnmarshalMT940")
		var convs []string
		calls := 0
		in := c.tagInterp()
		in.Hook = statementHook(c.P, func(l []string) {
			calls++
			convs = append(convs, l...)
		})
		st := c.P.NewState()
		o := st.alloc(zero(n))
		in.Run(st, m, &Ptr{Obj: o}, nonNilTerm(st, mk("swiftdata", tBytes)))
		c.use(in)
		if calls < 2 {
			c.Undecided("statements", "data of "+n.Obj().Name(), "the data is not taken apart in a known way")
			continue
		}
		c.Check("statements", "data of "+n.Obj().Name(), len(convs) == 0, c.P.Pos(m.Pos()), "the data is converted with %v before its tags are read and converted", convs)
	}
}

// conversionsOf visits the fields below a value with the conversions around them.
func conversionsOf(v Val, decs []string, visit func(fldInfo, []string)) {
	switch x := v.(type) {
	case *Term:
		if isFld(x) {
			visit(fldOf(x), decs)
			return
		}
		if strings.HasPrefix(x.Op, "dec:") || strings.HasPrefix(x.Op, "enc:") {
			decs = append(append([]string{}, decs...), x.Op)
		}
		if strings.HasPrefix(x.Op, "chr:") || x.Op == "len" {
			return
		}
		for _, a := range x.A {
			conversionsOf(a, decs, visit)
		}
	case *Struct:
		for _, f := range x.F {
			if f != nil {
				conversionsOf(expand(f), decs, visit)
			}
		}
	case *Iface:
		conversionsOf(expand(x.V), decs, visit)
	case *Seq:
		for _, p := range x.P {
			conversionsOf(p.V, decs, visit)
		}
	}
}

// sizes takes over the size rule of the message layout.
func (c *Ctx) sizes() {
	sub := newCtx(c.P, c.ID, c.Tier)
	checkP05(sub)
	for f := range sub.Funcs {
		c.Funcs[f] = true
	}
	for _, o := range sub.Obs {
		if o.Rule == "size" {
			c.Check("lengths", "size of "+strings.TrimPrefix(o.Key, "size|"), o.OK, o.Where, "%s", o.Detail)
		}
	}
}

// conversion reports a function of the character set conversion.
func conversion(fn *ssa.Function) bool {
	if fn == nil || fn.Pkg == nil {
		return false
	}
	switch p := fn.Pkg.Pkg.Path(); {
	case strings.HasSuffix(p, "/charset"):
		for _, par := range []*types.Tuple{fn.Signature.Params(), fn.Signature.Results()} {
			for i := 0; i < par.Len(); i++ {
				if t := par.At(i).Type(); isString(t) || isByteSlice(t) {
					return fn.Parent() == nil && fn.Object() != nil && fn.Object().Exported()
				}
			}
		}
	case strings.HasPrefix(p, "golang.org/x/text/"):
		return true
	}
	return false
}

// conversionsOutside looks for conversions that are reached from the exported
// functions of client, dialogs, messages and transport without passing through
// the packages that encode and decode.
func (c *Ctx) conversionsOutside() {
	out, _ := c.P.callGraph()
	codec := func(fn *ssa.Function) bool {
		switch pkgRel(fn) {
		case "element", "segment", "swift":
			return true
		}
		return false
	}
	for _, rel := range []string{"client", "dialog", "message", "transport", "transport/https", "domain"} {
		seen := map[*ssa.Function]bool{}
		var work []*ssa.Function
		via := map[*ssa.Function]*ssa.Function{}
		push := func(f, from *ssa.Function) {
			if f == nil || seen[f] || codec(f) {
				return
			}
			if pr := f.Parent(); pr != nil && !seen[pr] && pr.Name() != "init" {
				return // the function that makes it is not called
			}
			seen[f] = true
			via[f] = from
			work = append(work, f)
		}
		for _, fn := range c.P.AllFuncs() {
			if pkgRel(fn) == rel && exportedFn(fn) {
				push(fn, nil)
			}
		}
		var bad []string
		where := "-"
		n := 0
		for again := true; again; {
			again = false
			for len(work) > 0 {
				f := work[0]
				work = work[1:]
				if !c.P.InRepo(f) {
					continue
				}
				n++
				c.Funcs[f.String()] = true
				for _, b := range f.Blocks {
					for _, x := range b.Instrs {
						k, ok := x.(ssa.CallInstruction)
						if !ok {
							continue
						}
						for _, g := range out[k] {
							if conversion(g) && pkgRel(f) != "charset" {
								if v, isV := k.(ssa.Value); isV && onlyPrinted(v, 0) {
									continue
								}
								var path []string
								for h := f; h != nil; h = via[h] {
									path = append(path, h.Name())
								}
								bad = append(bad, fmt.Sprintf("%s calls %s (reached by %s)", f.Name(), g.Name(), strings.Join(path, " < ")))
								where = c.P.Pos(k.Pos())
							}
							push(g, f)
						}
					}
				}
			}
			// closures whose maker turned out to be called
			for f := range seen {
				for _, a := range f.AnonFuncs {
					if !seen[a] {
						push(a, f)
						again = true
					}
				}
			}
		}
		sort.Strings(bad)
		c.Check("outside", rel, len(bad) == 0, where, "package %s converts text outside the codec (%d functions followed): %s", rel, n, strings.Join(bad, "; "))
	}
}

// onlyPrinted reports that a value goes nowhere but into log output.
func onlyPrinted(v ssa.Value, depth int) bool {
	if depth > 8 || v.Referrers() == nil {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case *ssa.MakeInterface, *ssa.Convert, *ssa.ChangeType, *ssa.Slice:
			if !onlyPrinted(x.(ssa.Value), depth+1) {
				return false
			}
		case *ssa.Store:
			ia, ok := x.Addr.(*ssa.IndexAddr)
			if !ok || x.Val != v || !onlyPrinted(ia.X, depth+1) {
				return false
			}
		case *ssa.IndexAddr:
		case ssa.CallInstruction:
			if !printCall(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// printCall reports a call of a printing or logging function.
func printCall(k ssa.CallInstruction) bool {
	var f *types.Func
	if cc := k.Common(); cc.IsInvoke() {
		f = cc.Method
	} else if g := cc.StaticCallee(); g != nil {
		f, _ = g.Object().(*types.Func)
	}
	if f == nil || f.Pkg() == nil {
		return false
	}
	switch f.Pkg().Path() {
	case "fmt", "log", "log/slog":
		return strings.HasPrefix(f.Name(), "Print") || strings.HasPrefix(f.Name(), "Fprint") || f.Pkg().Path() != "fmt"
	}
	return false
}
