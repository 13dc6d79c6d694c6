package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P09"] = checkP09 }

// checkP09 decides that a received segment is decoded by the decoder of its own identifier and version.
func checkP09(c *Ctx) {
	c.Rule("registered", "every segment decoder with an identifier and version of its own is found under exactly these and yields a segment of its own type reporting them", 35)
	c.Rule("one claim", "no two segment decoders report the same identifier and version", 35)
	c.Rule("unclaimed", "an identifier and version no decoder reports has no decoder", 200)
	c.Rule("version switch", "a version-dependent decoder that accepts a header decodes with the layout whose version the header carries", 25)
	c.Rule("version known", "a version-dependent decoder accepts every version a registered layout of its kind reports", 25)
	c.Rule("handed on", "a version-dependent decoder hands the complete segment to the chosen layout and reports its failure", 25)
	c.Rule("dispatch", "decoding a message decodes each segment by the decoder of its header's identifier and version, in order, and passes over all others", 200)
	c.Rule("requested", "decoding the segment of a requested identifier and version decodes only a segment carrying these", 100)
	c.Rule("protocol version", "each supported protocol version is found under the number it reports", 2)
	d := &reg{c: c}
	d.universe()
	d.registry()
	d.wrappers()
	d.messages()
	d.requested()
	c.protocolVersions()
}

type segKey struct {
	id string
	v  int
}

func (k segKey) String() string { return fmt.Sprintf("%s:%d", k.id, k.v) }

type reg struct {
	finds []finder
	c     *Ctx
	of    map[segKey][]*types.Named
	key   map[*types.Named]segKey
	keys  []segKey
	ids   []string
	max   int
}

// constOf runs a parameterless method on a fresh value of *n.
func (c *Ctx) constOf(n *types.Named, method string) Val {
	f := c.P.MethodOpt(types.NewPointer(n), method)
	if f == nil {
		return nil
	}
	in := NewInterp(c.P)
	st := c.P.NewState()
	st.frames = nil
	ps := in.Run(st, f, symRecv(st, n, "recv"))
	if len(ps) != 1 || ps[0].Kind != "return" || len(ps[0].Res) != 1 {
		return nil
	}
	return ps[0].Res[0]
}

func (d *reg) universe() {
	c := d.c
	d.of, d.key = map[segKey][]*types.Named{}, map[*types.Named]segKey{}
	ids := map[string]bool{}
	for _, n := range c.P.typesWith("segment", "UnmarshalHBCI") {
		if _, isS := under(n).(*types.Struct); !isS || c.P.isVersionWrapper(n) {
			continue
		}
		id, ok := asStr(c.constOf(n, "ID"))
		v, ok2 := asInt(c.constOf(n, "Version"))
		if !ok || !ok2 {
			continue // reports what it received
		}
		k := segKey{id, v}
		d.of[k] = append(d.of[k], n)
		d.key[n] = k
		ids[id] = true
		if v > d.max {
			d.max = v
		}
	}
	for k := range d.of {
		d.keys = append(d.keys, k)
	}
	sort.Slice(d.keys, func(i, j int) bool { return d.keys[i].String() < d.keys[j].String() })
	for i := range ids {
		d.ids = append(d.ids, i)
	}
	sort.Strings(d.ids)
}

// lookup asks the registry for the decoder of a key: its type, nil when refused; ok is false when undecided.
func (d *reg) lookup(k segKey) (n *types.Named, where string, ok bool) {
	c := d.c
	f := c.P.Method("segment", "SegmentIndex", "UnmarshalerForSegment")
	in := NewInterp(c.P)
	st := c.P.NewState()
	st.frames = nil
	g := c.knownSegments()
	if g == nil {
		return nil, "", false
	}
	recv := Val(&Ptr{Obj: c.P.Globals[g]})
	if _, isP := f.Signature.Recv().Type().(*types.Pointer); !isP {
		recv = st.get(c.P.Globals[g])
	}
	ps := in.Run(st, f, recv, c.versioned(k))
	c.use(in)
	if len(ps) != 1 {
		return nil, "", false
	}
	p := ps[0]
	if p.Kind != "return" {
		return nil, p.Where, p.Kind == "panic"
	}
	if p.failed() {
		return nil, p.Where, true
	}
	if i, isI := p.St.resolve(p.Res[0]).(*Iface); isI {
		return namedOf(i.Dyn), p.Where, true
	}
	return nil, p.Where, false
}

// knownSegments is the package variable holding the registry.
func (c *Ctx) knownSegments() *ssa.Global {
	n := c.P.TypeNamed("segment", "SegmentIndex")
	for _, m := range c.P.Pkg("segment").Members {
		if g, ok := m.(*ssa.Global); ok && namedOf(g.Type().(*types.Pointer).Elem()) == n && g.Object() != nil && g.Object().Exported() {
			return g
		}
	}
	return nil
}

// versioned is the identification of a segment as the registry takes it.
func (c *Ctx) versioned(k segKey) Val {
	n := c.P.TypeNamed("segment", "VersionedSegment")
	s := under(n).(*types.Struct)
	v := &Struct{T: n, F: make([]Val, s.NumFields())}
	for i := range v.F {
		switch T := s.Field(i).Type(); {
		case isString(T):
			v.F[i] = cStr(k.id)
		case isInteger(T):
			v.F[i] = cInt(int64(k.v))
		default:
			v.F[i] = zero(T)
		}
	}
	return v
}

func (d *reg) registry() {
	c := d.c
	for _, k := range d.keys {
		ns := d.of[k]
		var names []string
		for _, n := range ns {
			names = append(names, n.Obj().Name())
		}
		c.Check("one claim", k.String(), len(ns) == 1, c.P.Pos(ns[0].Obj().Pos()), "%s is reported by %s", k, strings.Join(names, " and "))
		n, where, ok := d.lookup(k)
		if !ok {
			c.Undecided("registered", k.String(), "the registry's answer could not be evaluated")
			continue
		}
		if n == nil && !d.receivable(ns[0]) {
			continue
		}
		if n == nil {
			c.Check("registered", k.String(), false, c.P.Pos(ns[0].Obj().Pos()), "%s (%s) is not in the registry: a received %s is passed over", ns[0].Obj().Name(), k, k)
			continue
		}
		got, has := d.key[n]
		c.Check("registered", k.String(), has && got == k, where, "under %s the registry yields %s, which reports %v", k, n.Obj().Name(), got)
	}
	for _, id := range d.ids {
		for v := 0; v <= d.max+2; v++ {
			k := segKey{id, v}
			if len(d.of[k]) > 0 {
				continue
			}
			n, where, ok := d.lookup(k)
			if !ok {
				c.Undecided("unclaimed", k.String(), "the registry's answer could not be evaluated")
				continue
			}
			c.Check("unclaimed", k.String(), n == nil, where, "under %s the registry yields a decoder reporting something else", k)
		}
	}
}

// receivable: the type is a segment the bank sends inside a message (the others are read by the message itself).
func (d *reg) receivable(n *types.Named) bool {
	return true
}

const headMark = "dec:SegmentHeader"

// headerHook models the reading of segment headers: heads maps the raw header
// to its identifier and version.
func (d *reg) headerHook(head func(raw Val) (id, v Val)) func(*Call) ([]Outcome, bool) {
	return func(k *Call) ([]Outcome, bool) {
		if k.Callee == nil {
			return nil, false
		}
		n := recvNamed(k.Callee)
		if n == nil || !d.c.P.isElementPkg(n) {
			return nil, false
		}
		if k.Callee.Name() == "UnmarshalHBCI" && n.Obj().Name() == "SegmentHeader" && len(k.Args) == 2 {
			p, ok := k.St.resolve(k.Args[0]).(*Ptr)
			if !ok {
				return nil, false
			}
			dec := mk(headMark, n, k.In.bytesTerm(k.St, k.Args[1]))
			nv, ok := setPath(k.St.get(p.Obj), p.Path, dec)
			if !ok {
				return nil, false
			}
			k.St.set(p.Obj, nv)
			s := under(n).(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if isNillable(s.Field(i).Type()) {
					nonNilTerm(k.St, mk("."+s.Field(i).Name(), s.Field(i).Type(), dec))
				}
			}
			return []Outcome{{Res: &Nil{tError}}}, true
		}
		if k.Callee.Name() == "Val" && len(k.Args) == 1 {
			var raw Val
			field := ""
			walk(k.In.deep(k.St, k.Args[0]), func(v Val) bool {
				if t, ok := v.(*Term); ok && strings.HasPrefix(t.Op, ".") && len(t.A) == 1 {
					if b, ok := t.A[0].(*Term); ok && b.Op == headMark {
						raw, field = b.A[0], t.Op[1:]
					}
				}
				return true
			})
			if raw == nil {
				return nil, false
			}
			id, v := head(raw)
			switch field {
			case "ID":
				return []Outcome{{Res: id}}, true
			case "Version":
				return []Outcome{{Res: v}}, true
			}
		}
		return nil, false
	}
}

// layoutCall recognises the decoder of one layout: UnmarshalHBCI of a segment type.
func (d *reg) layoutCall(k *Call, root *ssa.Function) *types.Named {
	if k.Callee == nil || k.Callee == root || k.Callee.Name() != "UnmarshalHBCI" || len(k.Args) != 2 {
		return nil
	}
	n := recvNamed(k.Callee)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != modPath+"/segment" {
		return nil
	}
	return n
}

// wrappers judges the decoders that choose a layout by the header's version.
func (d *reg) wrappers() {
	c := d.c
	for _, n := range c.P.typesWith("segment", "UnmarshalHBCI") {
		f := c.P.ownMethod(n, "UnmarshalHBCI")
		if f == nil || !c.P.isVersionWrapper(n) {
			continue
		}
		c.Funcs[f.String()] = true
		iface, _ := under(under(n).(*types.Struct).Field(0).Type()).(*types.Interface)
		value := sym("value", tBytes)
		seen := map[int]bool{}
		fine := true
		vers := []Val{sym("version", tInt)}
		for v := 0; v <= d.max+2; v++ {
			vers = append(vers, cInt(int64(v)))
		}
		vers = append(vers, cInt(99), cInt(999))
		ident := Val(sym("id", tString))
		if id := d.kindID(n); id != "" {
			ident = cStr(id)
		}
		for run := 0; run < 2*len(vers); run++ {
			ver, failing := vers[run/2], run%2 == 1
			in := NewInterp(c.P)
			in.ConvFork = false
			in.MaxFork = 40
			in.DeepN = 10
			st := c.P.NewState()
			st.frames = nil
			recv := symRecv(st, n, "recv")
			o := st.alloc(zero(n))
			st.syms[recv.key] = o
			nonNilTerm(st, value)
			head := d.headerHook(func(Val) (Val, Val) { return ident, ver })
			in.Hook = func(k *Call) ([]Outcome, bool) {
				if isExtract(k) {
					return []Outcome{{Res: tuple(wireElems(in, k.St, 6, nil), &Nil{tError})}}, true
				}
				if l := d.layoutCall(k, f); l != nil {
					k.St.emit("layout", posOf(k), cStr(l.Obj().Name()), k.In.bytesTerm(k.St, k.Args[1]))
					if failing {
						e := k.St.fresh("layouterr", tError)
						nonNilTerm(k.St, e)
						return []Outcome{{Res: e}}, true
					}
					return []Outcome{{Res: &Nil{tError}}}, true
				}
				return head(k)
			}
			ps := in.Run(st, f, recv, value)
			c.use(in)
			for _, p := range ps {
				if p.Kind != "return" {
					if p.Kind == "trunc" {
						fine = false
						c.Undecided("version switch", n.Obj().Name(), "path not followed to its end")
					}
					continue
				}
				lo, _, point := p.St.point(ver)
				if !point {
					if p.success() {
						c.note("%s: the version of an accepting path is not a single one, judged by enumeration", n.Obj().Name())
					}
					continue
				}
				name := fmt.Sprintf("%s version %s", n.Obj().Name(), fmt.Sprint(lo))
				if !p.success() {
					continue
				}
				if failing {
					if len(p.St.Events()) > 0 {
						c.Check("handed on", name, false, p.Where, "the failure of the chosen layout is not reported")
					}
					continue
				}
				iv, isI := p.St.resolve(fieldAt(p.St, o, 0)).(*Iface)
				if !isI {
					if nv := fieldAt(p.St, o, 0); isNil(p.St.resolve(nv)) {
						continue // passed over
					}
					fine = false
					c.Undecided("version switch", name, "the layout left behind could not be evaluated")
					continue
				}
				l := namedOf(iv.Dyn)
				k, has := d.key[l]
				if !has {
					fine = false
					c.Undecided("version switch", name, l.Obj().Name()+" does not report a fixed version")
					continue
				}
				c.Check("version switch", name, point && lo == k.v, p.Where, "a header of version %s is decoded as %s, whose version is %d", fmt.Sprint(lo), l.Obj().Name(), k.v)
				if point {
					seen[lo] = true
				}
				ok := false
				for _, e := range p.St.Events() {
					nm, _ := asStr(e.Args[0])
					if nm == l.Obj().Name() && e.Args[1].Key() == value.Key() {
						ok = true
					}
				}
				c.Check("handed on", name, ok, p.Where, "the segment left behind was not decoded from the complete segment")
			}
		}
		if !fine {
			continue
		}
		for k, ns := range d.of {
			if iface == nil || !types.Implements(types.NewPointer(ns[0]), iface) || !d.sameKind(n, ns[0]) {
				continue
			}
			c.Check("version known", n.Obj().Name()+" "+k.String(), seen[k.v], c.P.Pos(f.Pos()), "a segment of version %d is rejected or passed over although %s is its layout", k.v, ns[0].Obj().Name())
		}
	}
}

// kindID is the identifier of the layouts a wrapper chooses from ("" if several).
func (d *reg) kindID(w *types.Named) string {
	iface, _ := under(under(w).(*types.Struct).Field(0).Type()).(*types.Interface)
	id := ""
	for k, ns := range d.of {
		if iface != nil && types.Implements(types.NewPointer(ns[0]), iface) && d.sameKind(w, ns[0]) {
			if id != "" && id != k.id {
				return ""
			}
			id = k.id
		}
	}
	return id
}

// sameKind: the layout has the identifier most layouts of the wrapper's own interface have.
func (d *reg) sameKind(w, l *types.Named) bool {
	iface, _ := under(under(w).(*types.Struct).Field(0).Type()).(*types.Interface)
	cnt := map[string]int{}
	for k, ns := range d.of {
		if types.Implements(types.NewPointer(ns[0]), iface) {
			cnt[k.id]++
		}
	}
	return len(cnt) == 1 || strings.HasPrefix(l.Obj().Name(), w.Obj().Name()) || strings.HasPrefix(l.Obj().Name(), under(w).(*types.Struct).Field(0).Name())
}

func fieldAt(st *State, obj, i int) Val {
	v, ok := getPath(st.get(obj), []int{i})
	if !ok {
		return nil
	}
	return v
}

// point: the only value a number can have on this path.
func (st *State) point(t Val) (lo, hi int, ok bool) {
	l, h := st.interval(t)
	return int(l), int(h), l == h
}

// ---- messages

type rawSeg struct {
	key segKey
	raw string
}

func rawOf(i int, k segKey) rawSeg {
	return rawSeg{k, fmt.Sprintf("%s:%d:%d+x%d'", k.id, i+2, k.v, i)}
}

// message runs fn on an Unmarshaler made by the constructor for a message of these segments.
func (d *reg) message(segs []rawSeg, root *ssa.Function, args func(st *State) []Val) (*Interp, []Path, *Ptr) {
	c := d.c
	in := NewInterp(c.P)
	in.ConvFork = false
	in.DeepN = 12
	in.MaxVisit = 12
	byRaw := map[string]segKey{}
	for _, s := range segs {
		byRaw[strings.SplitN(s.raw, "+", 2)[0]] = s.key
	}
	head := d.headerHook(func(raw Val) (Val, Val) {
		b, ok := constBytes(raw)
		if k, known := byRaw[b]; ok && known {
			return cStr(k.id), cInt(int64(k.v))
		}
		return sym("id?", tString), sym("version?", tInt)
	})
	in.Hook = func(k *Call) ([]Outcome, bool) {
		if isExtract(k) {
			b, ok := constBytes(k.In.bytesTerm(k.St, k.Args[0]))
			if !ok {
				return nil, false
			}
			h := strings.SplitN(strings.TrimSuffix(b, "'"), "+", 2)
			var parts []Part
			for _, e := range h {
				parts = append(parts, Part{V: constBytesVal(e)})
			}
			return []Outcome{{Res: tuple(in.newSlice(k.St, types.NewSlice(tBytes), parts), &Nil{tError})}}, true
		}
		if isRawExtract(k) {
			var parts []Part
			for _, s := range segs {
				t := constBytesVal(s.raw)
				nonNilTerm(k.St, t)
				parts = append(parts, Part{V: t})
			}
			list := in.newSlice(k.St, types.NewSlice(tBytes), parts)
			p, ok := k.St.resolve(k.Args[0]).(*Ptr)
			if !ok {
				return nil, false
			}
			s := under(recvNamed(k.Callee)).(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				if types.Identical(s.Field(i).Type(), types.NewSlice(tBytes)) {
					nv, ok := setPath(k.St.get(p.Obj), append(append([]int{}, p.Path...), i), list)
					if !ok {
						return nil, false
					}
					k.St.set(p.Obj, nv)
				}
			}
			return []Outcome{{Res: tuple(list, &Nil{tError})}}, true
		}
		if l := d.layoutCall(k, root); l != nil && !c.P.isVersionWrapper(l) {
			raw := k.In.bytesTerm(k.St, k.Args[1])
			k.St.emit("layout", posOf(k), cStr(l.Obj().Name()), raw, k.St.resolve(k.Args[0]))
			if b, ok := constBytes(raw); ok {
				d.giveHeader(k.St, k.Args[0], constBytesVal(strings.SplitN(b, "+", 2)[0]))
			}
			return []Outcome{{Res: &Nil{tError}}}, true
		}
		if o, ok := foldText(k); ok {
			return o, true
		}
		return head(k)
	}
	st := c.P.NewState()
	st.frames = nil
	mkU := c.P.Func("message", "NewUnmarshaler")
	msg := sym("message", tBytes)
	nonNilTerm(st, msg)
	ps := in.Run(st, mkU, msg)
	if len(ps) != 1 || ps[0].Kind != "return" {
		return in, nil, nil
	}
	u, ok := ps[0].St.resolve(ps[0].Res[0]).(*Ptr)
	if !ok {
		return in, nil, nil
	}
	st = ps[0].St.clone()
	st.frames = nil
	out := in.Run(st, root, append([]Val{u}, args(st)...)...)
	c.use(in)
	return in, out, u
}

// giveHeader lets a decoded segment carry the header it was decoded with.
func (d *reg) giveHeader(st *State, recv, raw Val) {
	p, ok := st.resolve(recv).(*Ptr)
	if !ok {
		return
	}
	cur, _ := getPath(st.get(p.Obj), p.Path)
	s, ok := cur.(*Struct)
	if !ok {
		return
	}
	hdr := d.c.P.TypeNamed("element", "SegmentHeader")
	dec := mk(headMark, hdr, raw)
	ht := under(hdr).(*types.Struct)
	for i := 0; i < ht.NumFields(); i++ {
		if isNillable(ht.Field(i).Type()) {
			nonNilTerm(st, mk("."+ht.Field(i).Name(), ht.Field(i).Type(), dec))
		}
	}
	ty := under(s.T).(*types.Struct)
	for i := 0; i < ty.NumFields(); i++ {
		if f := ty.Field(i); !f.Embedded() || !types.IsInterface(f.Type()) {
			continue
		}
		// the common part of all segments: what it embeds and a header
		for _, n := range d.c.P.typesWith("segment", "Header") {
			b, ok := under(n).(*types.Struct)
			if !ok || !types.Implements(types.NewPointer(n), under(ty.Field(i).Type()).(*types.Interface)) {
				continue
			}
			for j := 0; j < b.NumFields(); j++ {
				if !types.Identical(b.Field(j).Type(), types.NewPointer(hdr)) {
					continue
				}
				v, _ := setPath(zero(n), []int{j}, &Ptr{Obj: st.alloc(dec)})
				nv, ok := setPath(st.get(p.Obj), append(append([]int{}, p.Path...), i), &Iface{Dyn: types.NewPointer(n), V: &Ptr{Obj: st.alloc(v)}})
				if ok {
					st.set(p.Obj, nv)
				}
				return
			}
		}
	}
}

// isRawExtract recognises the splitter of messages into segments.
func isRawExtract(k *Call) bool {
	if k.Callee == nil || k.Callee.Signature.Recv() == nil || !strings.HasPrefix(pkgRel(k.Callee), "message") {
		return false
	}
	s := k.Callee.Signature
	return s.Params().Len() == 0 && s.Results().Len() == 2 && types.Identical(s.Results().At(0).Type(), types.NewSlice(tBytes)) && isError(s.Results().At(1).Type())
}

// messages judges the decoding of whole messages.
func (d *reg) messages() {
	c := d.c
	unmarshal := c.P.Method("message", "Unmarshaler", "Unmarshal")
	c.Funcs[unmarshal.String()] = true
	claimed := func(k segKey) *types.Named {
		if ns := d.of[k]; len(ns) == 1 {
			if n, _, ok := d.lookup(k); ok && n != nil {
				return ns[0]
			}
		}
		return nil
	}
	judge := func(name string, keys ...segKey) {
		var segs []rawSeg
		for i, k := range keys {
			segs = append(segs, rawOf(i, k))
		}
		in, ps, u := d.message(segs, unmarshal, func(*State) []Val { return nil })
		if len(ps) != 1 || ps[0].Kind != "return" {
			if len(ps) == 1 && ps[0].Kind == "panic" {
				c.Check("dispatch", name, false, ps[0].Where, "decoding the message panics")
				return
			}
			c.Undecided("dispatch", name, fmt.Sprintf("%d paths", len(ps)))
			return
		}
		p := ps[0]
		if !p.success() {
			c.Check("dispatch", name, false, p.Where, "the message is refused")
			return
		}
		// what was decoded, in order
		type dec struct{ l, raw string }
		var want, got []dec
		perID := map[string][]string{}
		for _, s := range segs {
			if n := claimed(s.key); n != nil {
				want = append(want, dec{n.Obj().Name(), s.raw})
				perID[s.key.id] = append(perID[s.key.id], n.Obj().Name())
			}
		}
		for _, e := range p.St.Events() {
			nm, _ := asStr(e.Args[0])
			raw, _ := constBytes(e.Args[1])
			got = append(got, dec{nm, raw})
		}
		ok := len(want) == len(got)
		for i := range want {
			ok = ok && i < len(got) && want[i] == got[i]
		}
		c.Check("dispatch", name, ok, p.Where, "decoded %v, expected %v", got, want)
		for _, k := range keys {
			for _, f := range d.finders() {
				st := p.St.clone()
				st.frames = nil
				lab := name + " listed " + k.id
				if f.tag != "" {
					lab = name + " " + f.tag + " " + k.id
				}
				qs := in.Run(st, f.fn, f.recv(st, u), cStr(k.id))
				if len(qs) != 1 || qs[0].Kind != "return" {
					c.Undecided("dispatch", lab, "could not be evaluated")
					continue
				}
				q := qs[0]
				have, ok := d.decoded(in, q)
				if !ok {
					c.Undecided("dispatch", lab, "the list of segments could not be evaluated")
					continue
				}
				want := perID[k.id]
				if f.first && len(want) > 1 {
					want = want[:1]
				}
				c.Check("dispatch", lab, strings.Join(have, " ") == strings.Join(want, " "), q.Where, "the segments of %s are %v, expected %v", k.id, have, want)
			}
		}
	}
	for _, id := range d.ids {
		var own []segKey
		for v := 1; v <= d.max+1; v++ {
			k := segKey{id, v}
			judge(k.String(), k)
			if len(d.of[k]) > 0 {
				own = append(own, k)
			}
		}
		// versions of one identifier next to each other, in both orders, and unknown ones between
		un := segKey{id, d.max + 2}
		for _, a := range own {
			judge("mixed "+un.String()+" "+a.String(), un, a, un)
			for _, b := range own {
				judge("mixed "+a.String()+" "+b.String(), a, un, b)
				judge("three "+a.String()+" "+b.String(), a, b, a)
			}
		}
	}
	judge("unknown identifier", segKey{"HIXXX", 1}, segKey{"HIXXXS", 1}, segKey{"HIXXX", 2})
}

// finder is a method that hands out the decoded segments of an identifier.
type finder struct {
	tag   string
	fn    *ssa.Function
	first bool
	recv  func(st *State, u *Ptr) Val
}

// finders lists the methods of the decoder, and of the messages that hold one,
// that take an identifier and return one decoded segment or all of them.
func (d *reg) finders() []finder {
	if d.finds != nil {
		return d.finds
	}
	p := d.c.P
	seg := p.TypeNamed("segment", "Segment")
	u := p.TypeNamed("message", "Unmarshaler")
	of := func(t types.Type, tag string, recv func(st *State, u *Ptr) Val) {
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			m := ms.At(i).Obj()
			g, _ := m.Type().(*types.Signature)
			if !m.Exported() || g.Params().Len() != 1 || g.Results().Len() != 1 || !isString(g.Params().At(0).Type()) {
				continue
			}
			r := g.Results().At(0).Type()
			first := types.Identical(r, seg)
			if !first && !types.Identical(r, types.NewSlice(seg)) {
				continue
			}
			l := tag + m.Name()
			if l == "SegmentsByID" {
				l = ""
			}
			if fn := p.MethodOpt(t, m.Name()); fn != nil {
				d.c.Funcs[fn.String()] = true
				d.finds = append(d.finds, finder{l, fn, first, recv})
			}
		}
	}
	of(types.NewPointer(u), "", func(_ *State, u *Ptr) Val { return u })
	sc := p.Pkg("message").Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		s, ok := tn.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			i := i
			if types.Identical(s.Field(i).Type(), types.NewPointer(u)) {
				of(types.NewPointer(tn.Type()), n+".", func(st *State, u *Ptr) Val {
					v, _ := setPath(zero(tn.Type()), []int{i}, u)
					return &Ptr{Obj: st.alloc(v)}
				})
			}
		}
	}
	return d.finds
}

// decoded names the types of the segments that are handed out.
func (d *reg) decoded(in *Interp, q Path) (have []string, ok bool) {
	nameOf := func(v Val) string {
		if i, isI := q.St.resolve(v).(*Iface); isI && namedOf(i.Dyn) != nil {
			return namedOf(i.Dyn).Obj().Name()
		}
		return "?"
	}
	v := q.St.resolve(q.Res[0])
	if isNil(v) {
		return nil, true
	}
	if sl, ok := v.(*Slice); ok {
		els, ok := in.parts(q.St, sl)
		for _, e := range els {
			have = append(have, nameOf(e.V))
		}
		return have, ok
	}
	return []string{nameOf(v)}, true
}

// requested judges the decoding of one requested segment.
func (d *reg) requested() {
	c := d.c
	f := c.P.Method("message", "Unmarshaler", "UnmarshalSegment")
	c.Funcs[f.String()] = true
	for _, k := range d.keys {
		if n, _, ok := d.lookup(k); !ok || n == nil {
			continue
		}
		other := segKey{k.id, k.v%d.max + 1}
		for _, m := range [][]segKey{{k}, {other}, {other, k}, {k, other}, {{"HIXXX", k.v}, k}, {{"HIXXX", k.v}}} {
			var segs []rawSeg
			want := ""
			name := "requested " + k.String() + " from"
			for i, x := range m {
				segs = append(segs, rawOf(i, x))
				name += " " + x.String()
				if x == k && want == "" {
					want = segs[i].raw
				}
			}
			_, ps, _ := d.message(segs, f, func(*State) []Val { return []Val{cStr(k.id), cInt(int64(k.v))} })
			if len(ps) != 1 || ps[0].Kind != "return" {
				if len(ps) == 1 && ps[0].Kind == "panic" {
					c.Check("requested", name, false, ps[0].Where, "panics")
					continue
				}
				c.Undecided("requested", name, fmt.Sprintf("%d paths", len(ps)))
				continue
			}
			p := ps[0]
			refused := p.failed()
			ev := p.St.Events()
			if want == "" {
				c.Check("requested", name, refused, p.Where, "no such segment is in the message, yet another one is decoded with the layout of %s", k)
				continue
			}
			good := !refused && len(ev) == 1
			if good {
				raw, _ := constBytes(ev[0].Args[1])
				nm, _ := asStr(ev[0].Args[0])
				good = raw == want && nm == d.of[k][0].Obj().Name()
			}
			c.Check("requested", name, good, p.Where, "the segment %s of the message is not the one decoded", k)
		}
	}
}

func (c *Ctx) protocolVersions() {
	for _, m := range c.P.Pkg("segment").Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		mt, ok := under(g.Type().(*types.Pointer).Elem()).(*types.Map)
		if !ok || !isInteger(mt.Key()) || c.P.MethodOpt(mt.Elem(), "Version") == nil {
			continue
		}
		st := c.P.NewState()
		st.frames = nil
		r, ok := st.resolve(st.get(c.P.Globals[g])).(*MapRef)
		if !ok {
			c.Undecided("protocol version", g.Name(), "not evaluated")
			continue
		}
		mc, ok := st.get(r.Obj).(*MapC)
		if !ok {
			c.Undecided("protocol version", g.Name(), "not evaluated")
			continue
		}
		for _, e := range mc.E {
			k, _ := asInt(e.K)
			in := NewInterp(c.P)
			s2 := st.clone()
			s2.frames = nil
			ps := in.Run(s2, c.P.MethodOpt(mt.Elem(), "Version"), e.V)
			if len(ps) != 1 || ps[0].Kind != "return" {
				c.Undecided("protocol version", fmt.Sprint(k), "not evaluated")
				continue
			}
			v, ok := asInt(ps[0].Res[0])
			c.Check("protocol version", fmt.Sprint(k), ok && v == k, c.P.Pos(g.Pos()), "under %d the library finds the protocol version reporting %v", k, v)
		}
	}
}

// constBytes is the text of a constant byte slice.
func constBytes(v Val) (string, bool) {
	v = stripConv(v)
	return asStr(v)
}

// constBytesVal is a constant byte slice.
func constBytesVal(s string) *Term {
	return mk("conv", tBytes, cStr(s))
}

func posOf(k *Call) token.Pos {
	if k.Instr != nil {
		return k.Instr.Pos()
	}
	return token.NoPos
}

// foldText evaluates the text functions of the standard library on constants.
func foldText(k *Call) ([]Outcome, bool) {
	if k.Callee == nil || len(k.Args) < 2 || !strings.HasPrefix(k.Name, "bytes.") && !strings.HasPrefix(k.Name, "strings.") {
		return nil, false
	}
	isB := strings.HasPrefix(k.Name, "bytes.")
	text := func(v Val) (string, bool) {
		v = k.St.resolve(v)
		if isByteSlice(valType(v)) || isB {
			v = k.In.bytesTerm(k.St, v)
		}
		if i, ok := asInt(v); ok {
			return string(rune(i)), true
		}
		return constBytes(v)
	}
	a, ok := text(k.Args[0])
	b, ok2 := text(k.Args[1])
	if !ok || !ok2 {
		return nil, false
	}
	val := func(s string) Val {
		if isB {
			return constBytesVal(s)
		}
		return cStr(s)
	}
	one := func(v Val) ([]Outcome, bool) { return []Outcome{{Res: v}}, true }
	list := func(l []string) ([]Outcome, bool) {
		var ps []Part
		for _, s := range l {
			ps = append(ps, Part{V: val(s)})
		}
		return one(k.In.newSlice(k.St, k.Sig.Results().At(0).Type(), ps))
	}
	switch k.Name[strings.Index(k.Name, ".")+1:] {
	case "Split":
		return list(strings.Split(a, b))
	case "SplitN":
		if n, ok := asInt(k.St.resolve(k.Args[2])); ok {
			return list(strings.SplitN(a, b, n))
		}
	case "Cut":
		x, y, f := strings.Cut(a, b)
		return one(tuple(val(x), val(y), cBool(f)))
	case "Index", "IndexByte", "IndexRune":
		return one(cInt(int64(strings.Index(a, b))))
	case "HasPrefix":
		return one(cBool(strings.HasPrefix(a, b)))
	case "HasSuffix":
		return one(cBool(strings.HasSuffix(a, b)))
	case "Equal":
		return one(cBool(a == b))
	case "TrimPrefix":
		return one(val(strings.TrimPrefix(a, b)))
	case "TrimSuffix":
		return one(val(strings.TrimSuffix(a, b)))
	case "Contains":
		return one(cBool(strings.Contains(a, b)))
	}
	return nil, false
}
