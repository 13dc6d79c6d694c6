package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func init() { checks["P22"] = checkP22 }

// realDlg is a PIN/TAN dialog made by its constructor from a symbolic
// configuration, with an abstract transport.
func (c *Ctx) realDlg(sc scenario) (*dlg, *State) {
	p := c.P
	d, _ := c.newDlg(sc)
	st := p.NewState()
	ver := d.versionVal(st)
	vt := p.TypeNamed("segment", "HBCIVersion")
	cfg := p.TypeNamed("dialog", "Config")
	tt := p.TypeNamed("transport", "Transport")
	o := structWith(st, cfg, "config.", func(f *types.Var) Val {
		if types.Identical(f.Type(), vt) {
			return ver
		}
		if namedOf(f.Type()) == tt {
			t := sym("config."+f.Name(), f.Type())
			nonNilTerm(st, t)
			return t
		}
		return nil
	})
	in := NewInterp(p)
	in.Hook = d.hook
	in.MaxFork = 1
	in.ConvFork = false
	fn := p.Func("dialog", "NewPinTanDialog")
	ps := in.Run(st, fn, st.get(o))
	if len(ps) != 1 || ps[0].Kind != "return" {
		fatalf("NewPinTanDialog not analysable (%d paths)", len(ps))
	}
	c.use(in)
	st = ps[0].St
	st.frames = nil
	d.recvV = ps[0].Res[0]
	pp, ok := st.resolve(d.recvV).(*Ptr)
	if !ok {
		fatalf("NewPinTanDialog returns no object")
	}
	whole := expand(st.get(pp.Obj)).(*Struct)
	for i := range whole.F {
		if q, ok := st.resolve(whole.F[i]).(*Ptr); ok && namedOf(under(d.ptd).(*types.Struct).Field(i).Type()) == d.dt {
			d.obj = q.Obj
		}
	}
	ds := expand(st.get(d.obj)).(*Struct)
	cp := &Struct{T: ds.T, F: append([]Val(nil), ds.F...)}
	for i, f := range structFields(d.dt) {
		if namedOf(f.Type()) == tt {
			t := sym("transport", f.Type())
			nonNilTerm(st, t)
			cp.F[i] = t
		}
	}
	st.set(d.obj, cp)
	return d, st
}

// step runs one method of the dialog in every given state.
func (d *dlg) step(sts []*State, method string, args func(*State) []Val) (out []*State, ps []Path) {
	fn := d.p.MethodOpt(types.NewPointer(d.ptd), method)
	if fn == nil {
		fatalf("PinTanDialog has no method %s", method)
	}
	for _, st := range sts {
		in := NewInterp(d.p)
		in.Hook = d.hook
		in.MaxFork = 1
		in.ConvFork = false
		if d.sc.present != 0 {
			in.MaxFork = 2
		}
		d.in = in
		r := in.Run(st, fn, append([]Val{d.recvV}, args(st)...)...)
		d.c.use(in)
		for _, p := range r {
			ps = append(ps, p)
			p.St.frames = nil
			out = append(out, p.St)
		}
	}
	return
}

func checkP22(c *Ctx) {
	c.Rule("secret", "the signature trailer carries the PIN set last, and no other, in every message sent afterwards", 20)
	c.Rule("function", "the signature header announces the security function selected last, in every message sent afterwards, also when the PIN was set again", 20)
	c.Rule("system", "signature and encryption header carry the client system id set last (the initial id in a synchronisation)", 20)
	c.Rule("profile", "signature and encryption header announce the same security profile", 10)
	c.Rule("reference", "the control reference of the signature trailer equals the one of the signature header", 20)
	c.Rule("key", "the signature header names a signing key and the encryption header an encryption key of the configured bank and user", 20)
	c.Assume = append(c.Assume, "up to three set-up calls before and one between two orders stand for longer histories")
	setters := []string{"SetPin", "SetClientSystemID", "SetSecurityFunction"}
	var pre [][]string
	var gen func(l []string, n int)
	gen = func(l []string, n int) {
		for _, s := range l {
			if s == "SetPin" {
				pre = append(pre, append([]string(nil), l...))
				break
			}
		}
		if n == 0 {
			return
		}
		for _, s := range setters {
			gen(append(l[:len(l):len(l)], s), n-1)
		}
	}
	gen(nil, 3)
	ops := []string{"SendMessage", "SyncUserParameterData", "SyncClientSystemID"}
	for _, v := range dialogVersions {
		for pi, seq := range pre {
			posts := []string{"", "SetPin", "SetClientSystemID", "SetSecurityFunction"}
			if len(seq) == 3 {
				posts = []string{""}
			}
			for qi, post := range posts {
				op1 := ops[(pi+qi)%3]
				op2 := ops[(pi+qi+1)%3]
				seqs := append(append([]string(nil), seq...), op1)
				if post != "" {
					seqs = append(seqs, post, op2)
				}
				c.judgeSequence(v, seqs)
			}
		}
	}
}

func (c *Ctx) judgeSequence(version string, seq []string) {
	short := strings.NewReplacer("SetPin", "pin", "SetClientSystemID", "system", "SetSecurityFunction", "function", "SendMessage", "order", "SyncUserParameterData", "user-sync", "SyncClientSystemID", "client-sync")
	lab := version + " " + short.Replace(strings.Join(seq, ">"))
	sc := scenario{label: lab, op: "SendMessage", version: version, acks: okAcks, encrypted: false, present: 0}
	d, st := c.realDlg(sc)
	sts := []*State{st}
	cur := map[string]string{"fn": "", "sys": "", "pin": ""}
	count := 0
	for _, m := range seq {
		switch m {
		case "SetPin", "SetClientSystemID", "SetSecurityFunction":
			k := map[string]string{"SetPin": "pin", "SetClientSystemID": "sys", "SetSecurityFunction": "fn"}[m]
			count++
			name := fmt.Sprintf("%s:%d", k, count)
			cur[k] = name
			sts, _ = d.step(sts, m, func(s *State) []Val {
				t := sym(name, tString)
				s.assume(mk("==", tBool, t, cStr("")), false)
				s.assume(mk("==", tBool, t, cStr("0")), false)
				return []Val{t}
			})
		default:
			var ps []Path
			nc := cur
			sts, ps = d.step(sts, m, func(s *State) []Val {
				if m == "SendMessage" {
					cs := c.P.TypeNamed("segment", "ClientSegment")
					o1 := sym("order:1", cs)
					nonNilTerm(s, o1)
					return []Val{d.order(s, o1)}
				}
				return nil
			})
			ok := false
			var next []*State
			for _, p := range ps {
				if p.Kind != "return" {
					continue
				}
				next = append(next, p.St)
				msgs := d.sent(p)
				if p.success() && len(msgs) > 0 {
					ok = true
				}
				pc := map[string]string{}
				for k, v := range cur {
					pc[k] = v
				}
				nc = pc
				for mi, sm := range msgs {
					c.judgeSecrets(d, p, sm, lab, mi, pc)
				}
			}
			if !ok {
				c.Check("secret", lab, false, "", "no successful execution found: %d paths", len(ps))
			}
			sts = next
			cur = nc
			// judge the remaining operations on their own messages only
			for _, s := range sts {
				s.events = nil
			}
		}
	}
}

// secretsOf lists the symbols with a prefix in a value.
func secretsOf(v Val, prefix string) map[string]bool {
	m := map[string]bool{}
	walk(v, func(x Val) bool {
		if t, ok := x.(*Term); ok && strings.HasPrefix(t.Op, prefix) {
			m[t.Op] = true
		}
		return true
	})
	return m
}

func only(m map[string]bool, name string) bool {
	if name == "" {
		return len(m) == 0
	}
	return len(m) == 1 && m[name]
}

func (c *Ctx) judgeSecrets(d *dlg, p Path, m *sentMsg, lab string, mi int, cur map[string]string) {
	mars := d.mars(p)
	where := c.P.Pos(m.ev.Pos)
	hv := m.has("HNVSK")
	var hk, ha, syn *segMar
	if vd := m.has("HNVSD"); vd != nil {
		if f := d.field(vd.ev.St, vd.seg, "Data"); f != nil {
			ops, _ := pieces(d.call(vd.ev.St, f, "Val"))
			for _, op := range ops {
				if x := mars[op]; x != nil {
					switch x.id {
					case "HNSHK":
						hk = x
					case "HNSHA":
						ha = x
					case "HKSYN":
						syn = x
					}
				}
			}
		}
	}
	if hv == nil || hk == nil || ha == nil {
		c.Check("secret", lab, false, where, "message %v is not a signed and encrypted message", m)
		return
	}
	deep := func(x *segMar) Val {
		return d.call(x.ev.St, x.seg, "String")
	}
	vv, vk, va := deep(hv), deep(hk), deep(ha)
	c.Check("secret", lab, only(secretsOf(va, "pin:"), cur["pin"]), where, "message %d: signature trailer carries %v, current PIN is %s", mi+1, keys(secretsOf(va, "pin:")), cur["pin"])
	fn := d.fieldVal(hk.ev.St, hk.seg, "SecurityFunction")
	if cur["fn"] != "" {
		ok := fn != nil && stripConv(fn).Key() == hk.ev.St.resolve(sym(cur["fn"], tString)).Key()
		c.Check("function", lab, ok, where, "message %d: signature header announces %s, selected is %s", mi+1, cut(keyOf(fn)), cur["fn"])
	} else {
		s, ok := asStr(fn)
		c.Check("function", lab, ok && s == "999", where, "message %d: signature header announces %s, default is 999", mi+1, cut(keyOf(fn)))
	}
	// client system id: after a synchronisation the one assigned by the bank
	want := cur["sys"]
	if syn != nil {
		want = ""
	}
	has := func(v Val) string {
		return strings.Join(append(keys(secretsOf(v, "sys:")), keys(secretsOf(v, "get:ClientSystemID"))...), ",")
	}
	kid, vid := has(vk), has(vv)
	c.Check("system", lab, kid == want && vid == want, where, "message %d: client system id is %q in the signature header and %q in the encryption header, set was %q", mi+1, kid, vid, want)
	if syn != nil {
		cur["sys"] = "get:ClientSystemID"
	}
	sp, vp := d.field(hk.ev.St, hk.seg, "SecurityProfile"), d.field(hv.ev.St, hv.seg, "SecurityProfile")
	if sp != nil && vp != nil {
		a, b := keyOf(d.call(hk.ev.St, sp, "String")), keyOf(d.call(hv.ev.St, vp, "String"))
		c.Check("profile", lab, a == b, where, "message %d: profile %s in the signature header, %s in the encryption header", mi+1, cut(a), cut(b))
	}
	r1, r2 := d.fieldVal(hk.ev.St, hk.seg, "SecurityControlRef"), d.fieldVal(ha.ev.St, ha.seg, "SecurityControlRef")
	c.Check("reference", lab, r1 != nil && keyOf(r1) == keyOf(r2), where, "message %d: control reference %s in the header, %s in the trailer", mi+1, cut(keyOf(r1)), cut(keyOf(r2)))
	k1, k2 := d.field(hk.ev.St, hk.seg, "KeyName"), d.field(hv.ev.St, hv.seg, "KeyName")
	d1, d2 := d.call(hk.ev.St, k1, "Val"), d.call(hv.ev.St, k2, "Val")
	ok := k1 != nil && k2 != nil
	why := ""
	for _, x := range []struct {
		v    Val
		want string
	}{{d1, "S"}, {d2, "V"}} {
		if x.v == nil {
			continue
		}
		s := secretsOf(x.v, "config.")
		if !s["config.UserID"] || len(s) < 2 {
			ok = false
			why += fmt.Sprintf(" key name built from %v", keys(s))
		}
		f := false
		walk(x.v, func(y Val) bool {
			if str, isS := asStr(y); isS && str == x.want {
				f = true
			}
			return true
		})
		if !f {
			ok = false
			why += " key type is not " + x.want
		}
	}
	c.Check("key", lab, ok, where, "message %d:%s", mi+1, why)
}

func keys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
