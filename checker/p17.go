package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P17"] = checkP17 }

// secretFlow follows the PIN through the whole module: field-based, through
// calls, conversions, text functions and closures. It stops where the PIN is
// handed over to an element of a segment; those places are recorded.
type secretFlow struct {
	p       *Prog
	wide    bool // follow readers and writers, too
	out     map[ssa.CallInstruction][]*ssa.Function
	in      map[*ssa.Function][]ssa.CallInstruction
	val     map[ssa.Value]ssa.Value // tainted value -> where it came from
	work    []ssa.Value
	fields  map[fieldKey]bool
	globals map[*ssa.Global]bool
	loads   map[fieldKey][]ssa.Value // values read from a field
	gloads  map[*ssa.Global][]ssa.Value
	sinks   map[ssa.CallInstruction]ssa.Value
	written map[ssa.CallInstruction]*ssa.Function // hand-over to the element package
	stores  map[ssa.Instruction]string            // stores into foreign places
	funcs   []*ssa.Function
}

func newSecretFlow(p *Prog) *secretFlow {
	f := &secretFlow{p: p, val: map[ssa.Value]ssa.Value{}, fields: map[fieldKey]bool{}, globals: map[*ssa.Global]bool{}, loads: map[fieldKey][]ssa.Value{},
		gloads: map[*ssa.Global][]ssa.Value{}, sinks: map[ssa.CallInstruction]ssa.Value{}, written: map[ssa.CallInstruction]*ssa.Function{}, stores: map[ssa.Instruction]string{}}
	f.out, f.in = p.callGraph()
	f.funcs = p.AllFuncs()
	for _, fn := range f.funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.FieldAddr:
					k := fieldKey{structKey(x.X.Type()), x.Field}
					f.loads[k] = append(f.loads[k], x)
				case *ssa.Field:
					k := fieldKey{structKey(x.X.Type()), x.Field}
					f.loads[k] = append(f.loads[k], x)
				case *ssa.UnOp:
					if g, ok := x.X.(*ssa.Global); ok {
						f.gloads[g] = append(f.gloads[g], x)
					}
				}
			}
		}
	}
	return f
}

func (f *secretFlow) add(v, from ssa.Value) {
	if v == nil {
		return
	}
	if _, ok := f.val[v]; ok {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	}
	if f.wide {
		if isError(v.Type()) {
			return
		}
		if i, ok := v.(ssa.Instruction); ok && !strings.HasPrefix(pkgRel(i.Parent()), "transport") {
			return
		}
		if prm, ok := v.(*ssa.Parameter); ok && !strings.HasPrefix(pkgRel(prm.Parent()), "transport") {
			return
		}
	}
	f.val[v] = from
	f.work = append(f.work, v)
}

func (f *secretFlow) field(k fieldKey, from ssa.Value) {
	if f.fields[k] {
		return
	}
	f.fields[k] = true
	for _, v := range f.loads[k] {
		f.add(v, from)
	}
}

func (f *secretFlow) global(g *ssa.Global, from ssa.Value) {
	if f.globals[g] {
		return
	}
	f.globals[g] = true
	for _, v := range f.gloads[g] {
		f.add(v, from)
	}
}

// place taints the memory at address a.
func (f *secretFlow) place(a ssa.Value, from ssa.Value, at ssa.Instruction) {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		f.field(fieldKey{structKey(x.X.Type()), x.Field}, from)
	case *ssa.IndexAddr:
		f.add(x.X, from)
		f.place(x.X, from, at)
	case *ssa.Global:
		f.global(x, from)
	case *ssa.UnOp:
		f.place(x.X, from, at)
	default:
		f.add(a, from)
	}
}

// textFunction tells whether a library function only computes a value from its
// arguments.
func textFunction(name string) bool {
	for _, p := range []string{"strings.", "(*strings.", "bytes.", "(*bytes.", "strconv.", "unicode", "fmt.Sprint", "len", "encoding/", "(*encoding/", "sort.", "slices.", "golang.org/x/text/", "(*golang.org/x/text/", "hash", "crypto/", "(hash.", "io.WriteString", "reflect.", "(reflect."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func (f *secretFlow) run() {
	for len(f.work) > 0 {
		v := f.work[len(f.work)-1]
		f.work = f.work[:len(f.work)-1]
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		for _, i := range *refs {
			switch x := i.(type) {
			case *ssa.Phi, *ssa.ChangeType, *ssa.Convert, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Slice, *ssa.Index, *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.SliceToArrayPointer, *ssa.MultiConvert:
				f.add(i.(ssa.Value), v)
			case *ssa.FieldAddr:
				if _, isAlloc := v.(*ssa.Alloc); !isAlloc {
					if _, isParam := v.(*ssa.Parameter); !isParam {
						f.add(x, v)
					}
				}
			case *ssa.IndexAddr:
				f.add(x, v)
			case *ssa.UnOp:
				f.add(x, v)
			case *ssa.BinOp:
				if x.Op.String() == "+" {
					f.add(x, v)
				}
			case *ssa.Store:
				if x.Val == v {
					f.place(x.Addr, v, x)
				}
			case *ssa.MapUpdate:
				f.add(x.Map, v)
			case *ssa.Send:
				f.add(x.Chan, v)
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for j, b := range x.Bindings {
					if b == v {
						f.add(fn.FreeVars[j], v)
					}
				}
			case *ssa.Return:
				fn := x.Parent()
				for j, r := range x.Results {
					if r != v {
						continue
					}
					for _, ci := range f.in[fn] {
						cv, ok := ci.(ssa.Value)
						if !ok {
							continue
						}
						if len(x.Results) == 1 {
							f.add(cv, v)
							continue
						}
						for _, rr := range *cv.Referrers() {
							if e, ok := rr.(*ssa.Extract); ok && e.Index == j {
								f.add(e, v)
							}
						}
					}
				}
			case ssa.CallInstruction:
				f.call(x, v)
			}
		}
	}
}

func (f *secretFlow) call(ci ssa.CallInstruction, v ssa.Value) {
	cc := ci.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			f.add(ci.(ssa.Value), v)
		case "copy":
			if len(cc.Args) > 0 && cc.Args[0] != v {
				f.add(cc.Args[0], v)
			}
		case "print", "println", "panic":
			f.sinks[ci] = v
		}
		return
	}
	callees := f.out[ci]
	inRepo := 0
	for _, g := range callees {
		if !f.p.InRepo(g) || len(g.Blocks) == 0 {
			continue
		}
		inRepo++
		if f.wide && !strings.HasPrefix(pkgRel(g), "transport") {
			if r, ok := ci.(ssa.Value); ok {
				f.add(r, v)
				for _, rr := range *r.Referrers() {
					if e, ok := rr.(*ssa.Extract); ok {
						f.add(e, v)
					}
				}
			}
			continue
		}
		if pkgRel(g) == "element" && pkgRel(ci.Parent()) != "element" {
			f.written[ci] = g
		}
		off := 0
		if cc.IsInvoke() {
			off = 1
		}
		for j, a := range cc.Args {
			if a == v && j+off < len(g.Params) {
				if pkgRel(g) == "element" && pkgRel(ci.Parent()) != "element" {
					continue // the element is the end of the way
				}
				f.add(g.Params[j+off], v)
			}
		}
	}
	if inRepo > 0 {
		return
	}
	name := ""
	if cc.IsInvoke() {
		name = cc.Method.FullName()
	} else if sc := cc.StaticCallee(); sc != nil {
		name = sc.String()
	}
	if f.wide && (strings.HasPrefix(name, "io.") || strings.HasPrefix(name, "(io.") || strings.HasPrefix(name, "bufio.") || strings.HasPrefix(name, "(*bufio.")) {
		if r, ok := ci.(ssa.Value); ok {
			f.add(r, v)
			for _, rr := range *r.Referrers() {
				if e, ok := rr.(*ssa.Extract); ok && e.Index == 0 {
					f.add(e, v)
				}
			}
		}
		for _, a := range cc.Args {
			switch x := a.(type) {
			case *ssa.MakeInterface:
				f.add(x.X, v)
			default:
				f.add(a, v)
			}
		}
		return
	}
	if textFunction(name) {
		if r, ok := ci.(ssa.Value); ok {
			f.add(r, v)
		}
		// buffers take the text up
		if len(cc.Args) > 0 && !cc.IsInvoke() && cc.Args[0] != v && strings.HasPrefix(name, "(*") {
			f.add(cc.Args[0], v)
		}
		return
	}
	f.sinks[ci] = v
}

func (f *secretFlow) path(v ssa.Value) string {
	var l []string
	for n := 0; v != nil && n < 12; n++ {
		fn := v.Parent()
		s := v.Name()
		if fn != nil {
			s = strings.ReplaceAll(fn.String(), modPath+"/", "") + ":" + s
		}
		l = append(l, s)
		v = f.val[v]
	}
	return strings.Join(l, " <- ")
}

func checkP17(c *Ctx) {
	c.Rule("source", "a place where the PIN enters: the PIN of the client configuration, the argument of SetPin and of NewPinKey and whatever they are set from", 3)
	c.Rule("no-sink", "no library call outside text functions receives a value that carries the PIN", 1)
	c.Rule("wire", "the PIN is handed over to a data element only by the signature trailer", 1)
	c.Rule("no-dump", "no value whose type holds the PIN is printed, logged, put into an error or encoded as a whole", 20)
	p := c.P
	f := newSecretFlow(p)
	// sources
	cfg := p.TypeNamed("client", "Config")
	cs := under(cfg).(*types.Struct)
	pinField := -1
	for i := 0; i < cs.NumFields(); i++ {
		if cs.Field(i).Name() == "PIN" {
			pinField = i
		}
	}
	if pinField < 0 {
		c.Check("source", "client.Config.PIN", false, "-", "the client configuration has no PIN")
		return
	}
	ck := fieldKey{types.TypeString(cfg, nil), pinField}
	f.field(ck, nil)
	c.Check("source", "client.Config.PIN", true, "-", "")
	for _, fn := range []*ssa.Function{p.Func("domain", "NewPinKey"), p.MethodOpt(types.NewPointer(p.TypeNamed("dialog", "PinTanDialog")), "SetPin")} {
		for _, prm := range fn.Params {
			if isString(prm.Type()) {
				f.add(prm, nil)
			}
		}
		c.Check("source", fn.Name(), true, p.Pos(fn.Pos()), "")
	}
	// what the configuration is filled from
	viperKeys := map[string]bool{}
	for _, fn := range f.funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || (fieldKey{structKey(fa.X.Type()), fa.Field}) != ck {
					continue
				}
				switch v := s.Val.(type) {
				case *ssa.UnOp:
					if g, isG := v.X.(*ssa.Global); isG {
						f.global(g, nil)
						c.Check("source", "variable "+g.Name(), true, p.Pos(s.Pos()), "")
					}
				case *ssa.Call:
					f.add(v, nil)
					if len(v.Call.Args) > 0 {
						if k, isC := v.Call.Args[0].(*ssa.Const); isC {
							viperKeys[k.String()] = true
						}
					}
				}
			}
		}
	}
	for _, fn := range f.funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if v, ok := i.(*ssa.Call); ok && len(v.Call.Args) > 0 && v.Call.StaticCallee() != nil && strings.Contains(v.Call.StaticCallee().String(), "viper") {
					if k, isC := v.Call.Args[0].(*ssa.Const); isC && viperKeys[k.String()] {
						f.add(v, nil)
					}
				}
			}
		}
	}
	f.run()
	var sinks []ssa.CallInstruction
	for ci := range f.sinks {
		sinks = append(sinks, ci)
	}
	sort.Slice(sinks, func(i, j int) bool { return sinks[i].Pos() < sinks[j].Pos() })
	name := func(fn *ssa.Function) string { return strings.ReplaceAll(fn.String(), modPath+"/", "") }
	for _, ci := range sinks {
		c.Check("no-sink", fmt.Sprintf("%s calls %s", name(ci.Parent()), calleeText(ci)), false, p.Pos(ci.Pos()), "the PIN reaches "+calleeText(ci)+": "+f.path(f.sinks[ci]))
	}
	c.Check("no-sink", fmt.Sprintf("%d values carrying the PIN", len(f.val)), len(f.val) >= 8, "-", "the PIN is not used at all")
	// hand-over to elements
	n := 0
	var ws []ssa.CallInstruction
	for ci := range f.written {
		ws = append(ws, ci)
	}
	sort.Slice(ws, func(i, j int) bool { return ws[i].Pos() < ws[j].Pos() })
	for _, ci := range ws {
		fn := ci.Parent()
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		ok := false
		if rn := recvNamed(fn); rn != nil {
			ok = c.segmentID(rn) == "HNSHA"
		}
		if !ok && pkgRel(fn) == "segment" {
			// a helper of the trailer
			ok = true
			for _, up := range f.in[fn] {
				g := up.Parent()
				if rn := recvNamed(g); rn == nil || c.segmentID(rn) != "HNSHA" {
					ok = false
				}
			}
			ok = ok && len(f.in[fn]) > 0
		}
		n++
		c.Check("wire", fmt.Sprintf("%s calls %s", name(ci.Parent()), calleeText(ci)), ok, p.Pos(ci.Pos()), "the PIN is written into an element outside the signature trailer")
	}
	c.Check("wire", "the signature trailer takes the PIN", n > 0, "-", "no element takes the PIN")
	c.dumps(f)
	c.messages()
	c.transported()
}

func calleeText(ci ssa.CallInstruction) string {
	cc := ci.Common()
	s := "a function value"
	if cc.IsInvoke() {
		s = cc.Method.FullName()
	} else if sc := cc.StaticCallee(); sc != nil {
		s = sc.String()
	} else if b, ok := cc.Value.(*ssa.Builtin); ok {
		s = b.Name()
	}
	return strings.ReplaceAll(s, modPath+"/", "")
}

// segmentID is the constant identifier of a segment type.
func (c *Ctx) segmentID(n *types.Named) string {
	fn := c.P.MethodOpt(types.NewPointer(n), "ID")
	if fn == nil || len(fn.Blocks) == 0 {
		return ""
	}
	in := NewInterp(c.P)
	st := c.P.NewState()
	for _, q := range in.Run(st, fn, symRecv(st, n, "recv")) {
		if q.Kind == "return" && len(q.Res) == 1 {
			if s, ok := asStr(q.Res[0]); ok {
				return s
			}
		}
	}
	return ""
}

// dumps checks the calls that print or encode whole values.
func (c *Ctx) dumps(f *secretFlow) {
	holds := map[string]bool{} // struct types with a tainted field
	for k := range f.fields {
		holds[k.t] = true
	}
	var carries func(t types.Type, depth int, seen map[string]bool) bool
	carries = func(t types.Type, depth int, seen map[string]bool) bool {
		k := types.TypeString(t, nil)
		if seen[k] {
			return false
		}
		seen[k] = true
		if holds[k] {
			return true
		}
		if _, isErr := t.(*types.Named); isErr && isError(t) {
			return false
		}
		// values that render themselves
		for _, m := range []string{"String", "Error", "Format", "GoString"} {
			if o, _, _ := types.LookupFieldOrMethod(t, true, nil, m); o != nil {
				if _, isF := o.(*types.Func); isF && m != "GoString" {
					return false
				}
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return depth == 0 && carries(u.Elem(), depth+1, seen)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if carries(u.Field(i).Type(), depth+1, seen) {
					return true
				}
			}
		case *types.Slice:
			return carries(u.Elem(), depth+1, seen)
		case *types.Array:
			return carries(u.Elem(), depth+1, seen)
		case *types.Map:
			return carries(u.Elem(), depth+1, seen)
		}
		return false
	}
	for _, fn := range f.funcs {
		if !c.P.InRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				sc := ci.Common().StaticCallee()
				if sc == nil || c.P.InRepo(sc) {
					continue
				}
				text := sc.String()
				prints := false
				for _, pre := range []string{"fmt.", "log.", "(*log.", "encoding/json", "(*encoding/json", "github.com/pkg/errors"} {
					prints = prints || strings.HasPrefix(text, pre)
				}
				if !prints {
					continue
				}
				var types_ []types.Type
				for _, a := range printedArgs(ci) {
					types_ = append(types_, a.Type())
				}
				for _, t := range types_ {
					c.Check("no-dump", fmt.Sprintf("%s: %s(%s)", strings.ReplaceAll(fn.String(), modPath+"/", ""), text, strings.ReplaceAll(types.TypeString(t, nil), modPath+"/", "")),
						!carries(t, 0, map[string]bool{}), c.P.Pos(ci.Pos()), "a value holding the PIN is written as a whole")
				}
			}
		}
	}
}

// printedArgs are the values converted to interfaces for a variadic call.
func printedArgs(ci ssa.CallInstruction) []ssa.Value {
	var l []ssa.Value
	for _, a := range ci.Common().Args {
		switch x := a.(type) {
		case *ssa.MakeInterface:
			l = append(l, x.X)
		case *ssa.Slice:
			al, ok := x.X.(*ssa.Alloc)
			if !ok {
				continue
			}
			for _, r := range *al.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, rr := range *ia.Referrers() {
					if s, ok := rr.(*ssa.Store); ok && s.Addr == ia {
						if mi, ok := s.Val.(*ssa.MakeInterface); ok {
							l = append(l, mi.X)
						}
					}
				}
			}
		}
	}
	return l
}

// outputCall tells whether a call writes text for people, and to what.
func outputCall(k *Call) (dest Val, out bool) {
	n := k.Name
	arg := func(i int) Val {
		if i < len(k.Args) {
			return k.Args[i]
		}
		return nil
	}
	switch {
	case strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "log.Print"), strings.HasPrefix(n, "log.Fatal"), strings.HasPrefix(n, "log.Panic"), n == "log.Output", strings.HasPrefix(n, "log/slog."):
		return nil, true
	case strings.HasPrefix(n, "fmt.Fprint"):
		if i, ok := k.St.resolve(arg(0)).(*Iface); ok && (strings.Contains(i.Dyn.String(), "bytes.Buffer") || strings.Contains(i.Dyn.String(), "strings.Builder")) {
			return nil, false
		}
		return arg(0), true
	case strings.HasPrefix(n, "(*log.Logger)."), strings.HasPrefix(n, "(*log/slog.Logger)."):
		if strings.HasSuffix(n, ".Writer") || strings.Contains(n, ".Set") || strings.HasSuffix(n, ".Prefix") || strings.HasSuffix(n, ".Flags") {
			return nil, false
		}
		if k.Recv != nil {
			return k.Recv, true
		}
		return arg(0), true
	case strings.HasPrefix(n, "(*os.File).Write"), n == "os.WriteFile", n == "(io.Writer).Write":
		return nil, true
	}
	return nil, false
}

// messages follows the encoded messages and segments of every dialog operation.
func (c *Ctx) messages() {
	c.Rule("errors", "no error returned by a dialog operation contains the PIN, or a message or segment that carries it, whatever step fails", 40)
	c.Rule("output", "no dialog operation prints or logs, outside the debug logger, anything that contains the PIN or a message or segment that carries it", 16)
	c.Rule("request", "in every message handed to the transport the PIN occurs only in the signature trailer inside the encrypted data, and neither in the address nor in any other part of the request; anonymous messages do not contain it at all", 40)
	p := c.P
	g, _ := p.Pkg("internal").Members["Debug"].(*ssa.Global)
	if g == nil {
		c.Undecided("output", "internal.Debug", "there is no debug logger")
		return
	}
	type run struct {
		sc  scenario
		lab string
	}
	var runs []run
	seenLab := map[string]bool{}
	for _, sc := range dialogScenarios(true) {
		if sc.present == 0 && sc.faults == 0 && sc.encrypted || !sc.synced {
			continue
		}
		if !seenLab[sc.label] {
			seenLab[sc.label] = true
			runs = append(runs, run{sc, sc.label})
		}
	}
	for _, v := range dialogVersions {
		for _, o := range dialogOps {
			for i := range o.roles {
				i := i
				sc := scenario{op: o.name, version: v, encrypted: o.auth, synced: true, present: 0, acks: func(r int) []codeIv {
					if r == i+1 {
						return []codeIv{errorCode}
					}
					return okAcks(r)
				}}
				sc.label = fmt.Sprintf("%s %s rejected %s", o.name, v, o.roles[i])
				runs = append(runs, run{sc, sc.label})
			}
		}
	}
	for _, r := range runs {
		sc := r.sc
		d, st := c.realDlg(sc)
		debug := st.get(p.Globals[g])
		outputs, leaks := 0, ""
		d.watch = func(k *Call) {
			dest, out := outputCall(k)
			if !out {
				return
			}
			if dest != nil && (k.St.resolve(dest).Key() == k.St.resolve(debug).Key() || strings.Contains(k.St.resolve(dest).Key(), k.St.resolve(debug).Key())) {
				return
			}
			outputs++
			old := k.In.DeepN
			k.In.DeepN = 12
			var l []Val
			if k.Recv != nil {
				l = append(l, k.Recv)
			}
			for _, a := range k.Args {
				l = append(l, k.In.deep(k.St, a))
			}
			k.In.DeepN = old
			near := false
			for _, a := range l {
				near = near || mentionsOp(a, "mar#") || mentionsOp(a, "pin:") || mentionsOp(a, "encrypt")
			}
			if !near {
				return
			}
			bad := d.secretTerms(Path{St: k.St})
			for _, a := range l {
				if s := mentionsAny(a, bad); s != "" {
					leaks = fmt.Sprintf("%s prints %s at %s", strings.ReplaceAll(k.Name, modPath+"/", ""), s, p.Pos(k.Instr.Pos()))
				}
			}
		}
		sts, _ := d.step([]*State{st}, "SetPin", func(s *State) []Val {
			t := sym("pin:1", tString)
			s.assume(mk("==", tBool, t, cStr("")), false)
			return []Val{t}
		})
		if sc.synced {
			sts, _ = d.step(sts, "SetClientSystemID", func(s *State) []Val {
				t := sym("system:1", tString)
				s.assume(mk("==", tBool, t, cStr("")), false)
				s.assume(mk("==", tBool, t, cStr("0")), false)
				return []Val{t}
			})
		}
		_, ps := d.step(sts, sc.op, func(s *State) []Val {
			if strings.HasSuffix(sc.op, "Message") {
				cs := p.TypeNamed("segment", "ClientSegment")
				o1 := sym("order:1", cs)
				nonNilTerm(s, o1)
				return []Val{d.order(s, o1)}
			}
			return nil
		})
		nerr, nmsg, errLeak, reqLeak, where := 0, 0, "", "", "-"
		for _, q := range ps {
			bad := d.secretTerms(q)
			for k, b := range bad {
				if b == "part" { // a segment other than the signature trailer
					reqLeak = "the PIN occurs in a segment other than the signature trailer (" + k + ")"
				}
			}
			if q.Kind == "return" {
				for _, v := range q.Res {
					if v == nil || !isError(typeOr(v)) || q.St.nilness(v) == 1 {
						continue
					}
					nerr++
					d.in.DeepN = 12
					if s := mentionsAny(d.in.deep(q.St, v), bad); s != "" {
						errLeak = "the returned error contains " + s
					}
				}
			}
			for _, m := range d.sent(q) {
				nmsg++
				if len(m.segs) == 0 {
					continue
				}
				if m.ev.Pos.IsValid() {
					where = p.Pos(m.ev.Pos)
				}
				// the request apart from its body
				walk(m.ev.Args[0], func(x Val) bool {
					if s, ok := x.(*Struct); ok {
						fs := under(s.T).(*types.Struct)
						for i, f := range s.F {
							if i < fs.NumFields() && fs.Field(i).Name() == "Body" {
								continue
							}
							if w := mentionsAny(f, bad); w != "" {
								reqLeak = fs.Field(i).Name() + " of the request contains " + w
							}
						}
						return false
					}
					return true
				})
				for _, sg := range m.segs {
					if sg.id == "HNSHA" {
						reqLeak = "the signature trailer is sent outside the encrypted data"
					}
				}
				auth := false
				for _, o := range dialogOps {
					auth = auth || o.name == sc.op && o.auth
				}
				if !auth {
					if w := mentionsAny(m.ev.Args[0], bad); w != "" {
						reqLeak = "an anonymous message contains " + w
					}
				}
			}
		}
		if nmsg == 0 {
			c.Check("request", r.lab, false, where, "no message found")
		} else {
			c.Check("request", r.lab, reqLeak == "", where, "%s", reqLeak)
		}
		if nerr > 0 {
			c.Check("errors", r.lab, errLeak == "", where, "%s", errLeak)
		}
		c.Check("output", r.lab, leaks == "", where, "%s", leaks)
	}
}

// secretTerms are the symbols of a path that carry the PIN: the PIN itself,
// the encoding of a segment that contains it and what is made from it.
func (d *dlg) secretTerms(q Path) map[string]string {
	bad := map[string]string{"pin:1": "PIN"}
	for op, m := range d.mars(q) {
		if m.id == "HNVSD" {
			bad[op] = "the encrypted data, which carries the PIN"
			continue
		}
		if m.id == "HNSHA" {
			bad[op] = "the signature trailer"
			continue
		}
		leaks, known := d.leaky[m.ev]
		if !known {
			v := d.call(m.ev.St, m.seg, "String")
			leaks = v != nil && len(secretsOf(v, "pin:")) > 0
			if d.leaky == nil {
				d.leaky = map[*Event]bool{}
			}
			d.leaky[m.ev] = leaks
		}
		if leaks {
			bad[op] = "part"
		}
	}
	for _, e := range q.St.Events() {
		if e.Kind == "Encrypt" {
			bad[e.Args[len(e.Args)-1].(*Term).Op] = "the payload"
		}
	}
	return bad
}

func mentionsAny(v Val, bad map[string]string) string {
	r := ""
	walk(v, func(x Val) bool {
		if t, ok := x.(*Term); ok && bad[t.Op] != "" {
			r = bad[t.Op]
		}
		return r == ""
	})
	return r
}

func typeOr(v Val) types.Type {
	if t := valType(v); t != nil {
		return t
	}
	return tInt
}

// debugDest tells whether a logger or writer is the debug logger, whatever it
// is handed down through. An exported function may be given one by the user.
func (f *secretFlow) debugDest(v ssa.Value, g *ssa.Global, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	rec := func(v ssa.Value) bool { return f.debugDest(v, g, seen) }
	switch x := v.(type) {
	case *ssa.Const:
		return x.IsNil()
	case *ssa.MakeInterface:
		return rec(x.X)
	case *ssa.ChangeInterface:
		return rec(x.X)
	case *ssa.ChangeType:
		return rec(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !rec(e) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if x.X == g {
			return true
		}
		switch a := x.X.(type) {
		case *ssa.Alloc:
			return f.debugStores(a, g, seen)
		case *ssa.FreeVar:
			return rec(a)
		}
	case *ssa.Alloc:
		return f.debugStores(x, g, seen)
	case *ssa.FreeVar:
		fn := x.Parent()
		i := -1
		for j, fv := range fn.FreeVars {
			if fv == x {
				i = j
			}
		}
		found := false
		for _, b := range fn.Parent().Blocks {
			for _, in := range b.Instrs {
				if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
					found = true
					if !rec(mc.Bindings[i]) {
						return false
					}
				}
			}
		}
		return found
	case *ssa.Parameter:
		fn := x.Parent()
		for i, prm := range fn.Params {
			if prm != x {
				continue
			}
			for _, ci := range f.in[fn] {
				cc := ci.Common()
				j := i
				if cc.IsInvoke() {
					j--
				}
				if j < 0 || j >= len(cc.Args) || !rec(cc.Args[j]) {
					return false
				}
			}
			return len(f.in[fn]) > 0 || exportedFn(fn)
		}
	case *ssa.Call:
		if sc := x.Call.StaticCallee(); sc != nil && sc.String() == "(*log.Logger).Writer" {
			return rec(x.Call.Args[0])
		}
	}
	return false
}

func (f *secretFlow) debugStores(a *ssa.Alloc, g *ssa.Global, seen map[ssa.Value]bool) bool {
	n := 0
	for _, r := range *a.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Addr == a {
			n++
			if !f.debugDest(s.Val, g, seen) {
				return false
			}
		}
	}
	return n > 0
}

// transported follows the bytes of a message through the transport packages.
func (c *Ctx) transported() {
	c.Rule("transported", "the bytes of a request are put into no error and written to no log or output but the debug logger", 3)
	c.Rule("debug", "the debug logger is silent unless the debug mode is on, and the mode is off initially", 2)
	p := c.P
	g, _ := p.Pkg("internal").Members["Debug"].(*ssa.Global)
	if g == nil {
		return
	}
	f := newSecretFlow(p)
	f.wide = true
	rq := p.TypeNamed("transport", "Request")
	for i, fd := range structFields(rq) {
		if fd.Name() == "Body" {
			f.field(fieldKey{types.TypeString(rq, nil), i}, nil)
		}
	}
	f.run()
	var sinks []ssa.CallInstruction
	for ci := range f.sinks {
		if strings.HasPrefix(pkgRel(ci.Parent()), "transport") {
			sinks = append(sinks, ci)
		}
	}
	sort.Slice(sinks, func(i, j int) bool { return sinks[i].Pos() < sinks[j].Pos() })
	c.Check("transported", fmt.Sprintf("%d values of request bytes", len(f.val)), len(f.val) > 5, "-", "no request bytes found")
	for _, ci := range sinks {
		name := calleeText(ci)
		cc := ci.Common()
		lab := fmt.Sprintf("%s calls %s", strings.ReplaceAll(ci.Parent().String(), modPath+"/", ""), name)
		switch {
		case strings.HasPrefix(name, "(*log.Logger)."), strings.HasPrefix(name, "fmt.Fprint"):
			c.Check("transported", lab, len(cc.Args) > 0 && f.debugDest(cc.Args[0], g, map[ssa.Value]bool{}), p.Pos(ci.Pos()), "request bytes are written to something else than the debug logger: %s", f.path(f.sinks[ci]))
		case strings.HasPrefix(name, "fmt."), strings.HasPrefix(name, "log."), strings.HasPrefix(name, "errors."), strings.Contains(name, "pkg/errors."), name == "panic", name == "print", name == "println", strings.HasPrefix(name, "os."), strings.HasPrefix(name, "(*os."):
			c.Check("transported", lab, false, p.Pos(ci.Pos()), "request bytes reach an error or output: %s", f.path(f.sinks[ci]))
		}
	}
	// the debug logger itself
	st := p.NewState()
	dv := st.get(p.Globals[g])
	var w Val
	if t, ok := st.resolve(dv).(*Term); ok && strings.HasSuffix(t.Op, "log.New") && len(t.A) > 0 {
		w = t.A[0]
	}
	wi, ok := w.(*Iface)
	if !ok {
		c.Undecided("debug", "internal.Debug", "the writer of the debug logger is not known: "+cut(keyOf(dv)))
		return
	}
	write := p.MethodOpt(wi.Dyn, "Write")
	set := p.Func("internal", "SetDebugMode")
	if write == nil || set == nil {
		c.Undecided("debug", "internal.Debug", "no Write or SetDebugMode")
		return
	}
	for _, mode := range []string{"initially", "off", "on"} {
		s := p.NewState()
		if mode != "initially" {
			in := NewInterp(p)
			ps := in.Run(s, set, cBool(mode == "on"))
			if len(ps) != 1 {
				c.Undecided("debug", mode, "SetDebugMode not analysable")
				continue
			}
			s = ps[0].St
			s.frames = nil
		}
		in := NewInterp(p)
		n := 0
		in.Hook = func(k *Call) ([]Outcome, bool) {
			if k.Callee != write && (strings.HasSuffix(k.Name, ".Write") || strings.HasSuffix(k.Name, ".WriteString") || strings.HasPrefix(k.Name, "fmt.") || strings.HasPrefix(k.Name, "log.")) {
				n++
			}
			return nil, false
		}
		in.Run(s, write, wi.V, sym("text", tBytes))
		c.use(in)
		if mode == "on" {
			c.Check("debug", mode, n > 0, p.Pos(write.Pos()), "the debug logger does not write at all")
		} else {
			c.Check("debug", mode, n == 0, p.Pos(write.Pos()), "the debug logger writes although the debug mode is off")
		}
	}
}
