package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P21"] = checkP21 }

// accountLeaves are the parts of an account in the order of the wire format.
func accountLeaves(t types.Type, v Val) (l []string) {
	for _, f := range structFields(namedOf(t)) {
		fv := mk("."+f.Name(), f.Type(), v)
		if n := namedOf(f.Type()); nameIs(n, "domain", "BankID") {
			cc, id := "", ""
			for _, g := range structFields(n) {
				gv := mk("."+g.Name(), g.Type(), fv)
				if b, ok := under(g.Type()).(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					cc = gv.Key()
				} else {
					id = gv.Key()
				}
			}
			l = append(l, cc, id)
			continue
		}
		l = append(l, fv.Key())
	}
	return
}

// components splits a data element at its component separators.
func components(f []Val) [][]Val {
	out := [][]Val{nil}
	for _, v := range f {
		s, ok := asStr(v)
		if !ok {
			out[len(out)-1] = append(out[len(out)-1], v)
			continue
		}
		cur := ""
		flush := func() {
			if cur != "" {
				out[len(out)-1] = append(out[len(out)-1], cStr(cur))
			}
			cur = ""
		}
		for i := 0; i < len(s); i++ {
			switch {
			case s[i] == '?' && i+1 < len(s):
				cur += s[i : i+2]
				i++
			case s[i] == ':':
				flush()
				out = append(out, nil)
			default:
				cur += string(s[i])
			}
		}
		flush()
	}
	return out
}

// occurs lists which of the given keys occur in the text of a field.
func occurs(f []Val, names map[string]string) map[string]bool {
	m := map[string]bool{}
	for _, v := range f {
		walk(v, func(x Val) bool {
			if n, ok := names[x.Key()]; ok {
				m[n] = true
				return false
			}
			return true
		})
	}
	return m
}

// argNames maps the keys of all caller supplied values to their names.
func (a *opArgs) argNames(fn *ssa.Function) map[string]string {
	m := map[string]string{}
	for r, v := range a.role {
		if n := namedOf(v.(*Term).T); nameIs(n, "domain", "BankID") {
			for _, g := range structFields(n) {
				m[mk("."+g.Name(), g.Type(), v).Key()] = r + "." + g.Name()
			}
			continue
		}
		if r == "account" {
			for i := 0; i < fn.Signature.Params().Len(); i++ {
				t := fn.Signature.Params().At(i).Type()
				if n := namedOf(t); nameIs(n, "domain", "AccountConnection") || nameIs(n, "domain", "InternationalAccountConnection") {
					for _, k := range accountLeaves(t, v) {
						m[k] = "account:" + k
					}
				}
			}
			continue
		}
		m[v.Key()] = r
	}
	return m
}

// decidedOn reports whether the path condition involves v.
func decidedOn(st *State, v Val) bool {
	for k := range st.facts {
		if strings.Contains(k, v.Key()) {
			return true
		}
	}
	return false
}

func checkP21(c *Ctx) {
	c.Rule("order", "every request holds exactly one order segment of the kind the operation stands for", 12)
	c.Rule("account", "the account field of the order holds the parts of the caller's account, each at its place", 7)
	c.Rule("range", "start and end date of the order are the caller's start and end date (a default only where the caller gave none)", 8)
	c.Rule("flag", "the all-accounts field is J exactly if the caller asked for all accounts", 7)
	c.Rule("limit", "the maximum-entries field is the caller's limit, empty if the operation has none", 10)
	c.Rule("continuation", "the continuation field is the caller's reference, absent if the caller gave none", 10)
	c.Rule("nothing else", "no caller supplied value appears in any other field of the message", 12)
	c.Rule("identification", "the identification segment carries bank id, user id and client system id of the dialog at their places", 8)
	c.Rule("product", "the processing preparation carries product name and version of the configuration at their places", 8)
	c.Rule("configuration", "client configuration reaches the dialog configuration attribute by attribute", 4)
	for _, op := range []string{"AccountTransactions", "SepaAccountTransactions", "AccountBalances", "SepaAccountBalances", "Status", "AccountInformation", "CommunicationAccess"} {
		id := orderOf[op]
		fn := c.P.MethodOpt(types.NewPointer(c.P.TypeNamed("client", "Client")), op)
		if fn == nil {
			fn = c.P.Method("client", "AnonymousClient", op)
		}
		where := c.P.Pos(fn.Pos())
		built := 0
		for v := int64(1); v <= 12; v++ {
			x, st := c.newCli()
			x.client(st)
			x.acks = benignAcks
			x.listed = []vseg{{paramsID(id), v}}
			a := clientArgs(st, fn)
			names := a.argNames(fn)
			ps := x.run(st, op, a.vals...)
			for _, p := range ps {
				if p.Kind != "return" {
					c.Check("order", fmt.Sprintf("%s, version %d", op, v), false, p.Where, "ends with "+p.Kind)
					continue
				}
				orders := x.orders(p)
				for _, o := range orders {
					built++
					c.judgeOrder(x, o, fn, a, names, op, id, v, where)
				}
			}
			if v == 1 && (op == "AccountInformation" || op == "CommunicationAccess") {
				break
			}
		}
		c.Check("order", op+" sends a request in some version", built > 0, where, "no request is ever sent")
	}
	c.identification()
	c.configuration()
}

func (c *Ctx) judgeOrder(x *cli, o *sentOrder, fn *ssa.Function, a *opArgs, names map[string]string, op, id string, v int64, where string) {
	name := fmt.Sprintf("%s, version %d", op, v)
	pos := wirePos[id]
	segs := x.orderSegs(o, id)
	orders := 0
	for _, s := range o.segs {
		if sid := x.segID(o.ev.St, s); sid != "HKTAN" {
			orders++
		}
	}
	c.Check("order", name, len(segs) == 1 && orders == 1, where, fmt.Sprintf("the request holds %d segments %s among %d orders", len(segs), id, orders))
	if len(segs) != 1 {
		return
	}
	for _, s := range o.segs {
		isOrder := x.segID(o.ev.St, s) == id
		for _, q := range x.texts(o.ev.St, s) {
			if q.Kind != "return" {
				c.Check("order", name, false, q.Where, "the request cannot be written: "+q.Kind)
				continue
			}
			fs := wireFields(q.Res[0])
			if !isOrder {
				for i, f := range fs {
					m := occurs(f, names)
					c.Check("nothing else", name+" (accompanying segment)", len(m) == 0, where, fmt.Sprintf("field %d of the accompanying segment holds %v", i, keys(m)))
				}
				continue
			}
			field := func(r string) []Val {
				i, ok := pos[r]
				if !ok || i >= len(fs) {
					return nil
				}
				return fs[i]
			}
			// account
			if av := a.role["account"]; av != nil && pos["account"] > 0 {
				var want []string
				for i := 0; i < fn.Signature.Params().Len(); i++ {
					if t := fn.Signature.Params().At(i).Type(); a.vals[i].Key() == av.Key() {
						want = accountLeaves(t, av)
					}
				}
				comps := components(field("account"))
				if len(want) == 6 && len(comps) == 4 {
					want = want[2:]
				}
				good := len(comps) == len(want)
				if good {
					for i, cm := range comps {
						m := occurs(cm, names)
						good = good && only(m, "account:"+want[i])
					}
				}
				c.Check("account", name, good, where, fmt.Sprintf("the account field holds %s, expected %v", cut(fieldKeyOf(field("account"))), want))
			}
			for _, r := range []string{"frombank", "tobank"} {
				if pos[r] == 0 {
					continue
				}
				cs := components(field(r))
				good := len(cs) == 2 && only(occurs(cs[0], names), r+".CountryCode") && only(occurs(cs[1], names), r+".ID")
				c.Check("account", name+", "+r, good, where, fmt.Sprintf("field %d (%s) holds %s", pos[r], r, cut(fieldKeyOf(field(r)))))
			}
			for _, r := range []string{"from", "to"} {
				if pos[r] == 0 {
					continue
				}
				m := occurs(field(r), names)
				good := only(m, r)
				if !good && len(m) == 0 && a.role[r] != nil {
					// a default is allowed where the caller's date was looked at
					good = decidedOn(q.St, a.role[r]) && !onlyNonZero(q.St, a.role[r])
				}
				c.Check("range", name+", "+r, good, where, fmt.Sprintf("field %d (%s) holds %s", pos[r], r, cut(clockFree(fieldKeyOf(field(r))))))
			}
			if av := a.role["all"]; av != nil {
				k := fieldKeyOf(field("all"))
				tr, known := q.St.truth(av)
				good := k == "J" && known && tr || k == "N" && known && !tr
				c.Check("flag", name, good, where, fmt.Sprintf("the all-accounts field is %s when the flag is %v", cut(k), tr))
			}
			if pos["max"] > 0 {
				m := occurs(field("max"), names)
				if a.role["max"] == nil {
					c.Check("limit", name, fieldKeyOf(field("max")) == "", where, "the maximum-entries field holds "+cut(fieldKeyOf(field("max"))))
				} else {
					good := only(m, "max") || fieldKeyOf(field("max")) == "" && decidedOn(q.St, a.role["max"])
					c.Check("limit", name, good, where, "the maximum-entries field holds "+cut(fieldKeyOf(field("max"))))
				}
			}
			if pos["cont"] > 0 {
				m := occurs(field("cont"), names)
				k := fieldKeyOf(field("cont"))
				if a.role["cont"] == nil {
					c.Check("continuation", name, k == "", where, "the continuation field holds "+cut(k))
				} else {
					empty, known := q.St.truth(mk("==", types.Typ[types.Bool], a.role["cont"], cStr("")))
					c.Check("continuation", name, only(m, "cont") || k == "" && known && empty, where, "the continuation field holds "+cut(k))
				}
			}
			used := map[int]bool{}
			for _, i := range pos {
				used[i] = true
			}
			for i, f := range fs {
				if !used[i] {
					m := occurs(f, names)
					c.Check("nothing else", name, len(m) == 0, where, fmt.Sprintf("field %d holds %v", i, keys(m)))
				}
			}
		}
	}
}

// onlyNonZero reports whether the path condition says that date v is set.
func onlyNonZero(st *State, v Val) bool {
	for k, f := range st.facts {
		if strings.Contains(k, "IsZero") && strings.Contains(k, v.Key()) && f.C != nil && f.C.Key() == "false" {
			return true
		}
	}
	return false
}

// identification checks the segments that tell the bank who is calling.
func (c *Ctx) identification() {
	names := map[string]string{}
	cfg := c.P.TypeNamed("dialog", "Config")
	for _, f := range structFields(cfg) {
		t := sym("config."+f.Name(), f.Type())
		switch {
		case nameIs(namedOf(f.Type()), "domain", "BankID"):
			for _, g := range structFields(namedOf(f.Type())) {
				names[mk("."+g.Name(), g.Type(), t).Key()] = f.Name() + "." + g.Name()
			}
		default:
			names[t.Key()] = f.Name()
		}
	}
	for _, v := range dialogVersions {
		for _, o := range dialogOps {
			lab := v + " " + o.name
			anon := strings.Contains(o.name, "Anonymous")
			sc := scenario{label: lab, op: o.name, version: v, acks: okAcks, present: 0}
			d, st := c.realDlg(sc)
			sys := sym("sys:1", tString)
			sts, _ := d.step([]*State{st}, "SetClientSystemID", func(s *State) []Val {
				s.assume(mk("==", tBool, sys, cStr("")), false)
				s.assume(mk("==", tBool, sys, cStr("0")), false)
				return []Val{sys}
			})
			sts, _ = d.step(sts, "SetPin", func(s *State) []Val {
				t := sym("pin:1", tString)
				s.assume(mk("==", tBool, t, cStr("")), false)
				return []Val{t}
			})
			_, ps := d.step(sts, o.name, func(s *State) []Val {
				if o.order {
					cs := c.P.TypeNamed("segment", "ClientSegment")
					o1 := sym("order:1", cs)
					nonNilTerm(s, o1)
					return []Val{d.order(s, o1)}
				}
				return nil
			})
			idn, vvb := 0, 0
			for _, p := range ps {
				if p.Kind != "return" {
					continue
				}
				for mi, m := range d.sent(p) {
					segs := append(append([]*segMar(nil), m.segs...), m.inner...)
					if m.enc == nil {
						segs = append(segs, d.payload(p, m)...)
					}
					where := c.P.Pos(m.ev.Pos)
					for _, s := range segs {
						if s.id != "HKIDN" && s.id != "HKVVB" {
							continue
						}
						for _, q := range c.texts(s.ev.St, s.seg) {
							if q.Kind != "return" {
								c.Check("identification", lab, false, where, s.id+" cannot be written: "+q.Kind)
								continue
							}
							fs := wireFields(q.Res[0])
							at := func(i int) ([]Val, string) {
								if i < len(fs) {
									return fs[i], strings.TrimRight(fieldKeyOf(fs[i]), "'")
								}
								return nil, ""
							}
							name := fmt.Sprintf("%s, message %d", lab, mi+1)
							if s.id == "HKVVB" {
								vvb++
								for i, n := range map[int]string{4: "ProductName", 5: "ProductVersion"} {
									f, k := at(i)
									m := occurs(f, names)
									cv := sym("config."+n, tString)
									empty, known := q.St.truth(mk("==", tBool, cv, cStr("")))
									c.Check("product", name+", "+n, only(m, n) || k != "" && len(m) == 0 && known && empty, where,
										fmt.Sprintf("field %d of the processing preparation holds %s", i, cut(k)))
								}
								continue
							}
							idn++
							f1, k1 := at(1)
							cs := components(f1)
							good := len(cs) == 2 && only(occurs(cs[0], names), "BankID.CountryCode") && only(occurs(cs[1], names), "BankID.ID")
							c.Check("identification", name+", bank", good, where, "the bank field holds "+cut(k1))
							f2, k2 := at(2)
							f3, k3 := at(3)
							_, k4 := at(4)
							if anon {
								c.Check("identification", name+", user", k2 == "9999999999" && k3 == "0" && k4 == "0", where,
									fmt.Sprintf("anonymous identification holds user %s, system %s, status %s", cut(k2), cut(k3), cut(k4)))
								continue
							}
							c.Check("identification", name+", user", only(occurs(f2, names), "UserID"), where, "the user field holds "+cut(k2))
							isSys := only(occurs(f3, map[string]string{sys.Key(): "sys"}), "sys")
							if strings.HasPrefix(o.roles[0], "sync") {
								c.Check("identification", name+", system", k3 == "0" && k4 == "1", where, fmt.Sprintf("a synchronisation names system %s with status %s", cut(k3), cut(k4)))
							} else {
								c.Check("identification", name+", system", isSys && k4 == "1", where, fmt.Sprintf("the identification names system %s with status %s", cut(k3), cut(k4)))
							}
						}
					}
				}
			}
			c.Check("identification", lab+" identifies itself", idn > 0 && vvb > 0, "", "no identification is sent")
		}
	}
}

// payload lists the segments of a payload that was wrapped without a
// recognisable encryption step.
func (d *dlg) payload(p Path, m *sentMsg) (out []*segMar) {
	mars := d.mars(p)
	for _, s := range m.segs {
		if s.id != "HNVSD" {
			continue
		}
		if f := d.field(s.ev.St, s.seg, "Data"); f != nil {
			ops, _ := pieces(d.call(s.ev.St, f, "Val"))
			for _, op := range ops {
				if x := mars[op]; x != nil {
					out = append(out, x)
				}
			}
		}
	}
	return
}

// configuration checks how the client configuration reaches the dialog.
func (c *Ctx) configuration() {
	p := c.P
	fn := p.Func("client", "New")
	where := p.Pos(fn.Pos())
	st := p.NewState()
	cfg := p.TypeNamed("client", "Config")
	o := structWith(st, cfg, "config.", func(f *types.Var) Val { return nil })
	in := NewInterp(p)
	in.MaxFork = 1
	in.ConvFork = false
	in.Hook = func(k *Call) ([]Outcome, bool) {
		if k.Callee == nil {
			return nil, false
		}
		switch k.Callee.Name() {
		case "FindByBankID":
			bt := k.Sig.Results().At(0).Type()
			return []Outcome{{Res: mk("bankinfo", bt, k.St.resolve(k.Args[0]))}}, true
		case "HbciVersion":
			var out []Outcome
			for _, n := range []int64{300, 220} {
				n := n
				out = append(out, Outcome{Res: cInt(n), Do: func(s *State) bool {
					s.emit("listed", k.Instr.Pos(), cInt(n))
					return true
				}})
			}
			return out, true
		case "NewPinTanDialog":
			v := k.In.deep(k.St, k.Args[0])
			r := k.St.fresh("dialog", k.Sig.Results().At(0).Type())
			return []Outcome{{Res: r, Do: func(s *State) bool {
				nonNilTerm(s, r)
				s.emit("dialog", k.Instr.Pos(), v)
				return true
			}}}, true
		case "SetPin":
			v := k.In.deep(k.St, k.Args[1])
			return []Outcome{{Res: nil, Do: func(s *State) bool {
				s.emit("pin", k.Instr.Pos(), v)
				return true
			}}}, true
		}
		return nil, false
	}
	n := 0
	for _, q := range in.Run(st, fn, st.get(o)) {
		if q.Kind != "return" || !q.success() {
			continue
		}
		var dc *Struct
		pin, listed := "", "none"
		for _, e := range q.St.Events() {
			switch e.Kind {
			case "listed":
				listed = e.Args[0].Key()
			case "dialog":
				dc, _ = e.Args[0].(*Struct)
			case "pin":
				pin = e.Args[0].Key()
			}
		}
		if dc == nil {
			c.Check("configuration", "dialog", false, where, "no dialog is made")
			continue
		}
		n++
		c.Check("configuration", "PIN", pin == "config.PIN", where, "the PIN set is "+cut(pin))
		for i, f := range structFields(namedOf(dc.T)) {
			v := dc.F[i]
			k := v.Key()
			switch f.Name() {
			case "UserID":
				c.Check("configuration", f.Name(), k == "config.AccountID", where, "the user id is "+cut(k))
			case "ProductName", "ProductVersion":
				c.Check("configuration", f.Name(), k == "config."+f.Name(), where, "it is "+cut(k))
			case "BankID":
				b, ok := v.(*Struct)
				good := ok && len(b.F) == 2
				if good {
					for i, g := range structFields(namedOf(b.T)) {
						if g.Name() == "CountryCode" {
							good = good && b.F[i].Key() == "280"
						} else {
							good = good && b.F[i].Key() == "config.BankID"
						}
					}
				}
				c.Check("configuration", f.Name(), good, where, "the bank is "+cut(k))
			case "HBCIVersion":
				// the version's own number
				num := "?"
				if b, ok := v.(*Struct); ok {
					for _, x := range b.F {
						if n, isN := asInt(x); isN {
							num = fmt.Sprint(n)
						}
					}
				}
				set := q.St.resolve(sym("config.HBCIVersion", tInt))
				want := listed
				if n, isN := asInt(set); isN && n != 0 {
					want = fmt.Sprint(n)
				} else if pos, known := q.St.truth(mk("<", tBool, cInt(0), set)); !isN && !(known && !pos) {
					want = "the configured one"
				}
				c.Check("configuration", f.Name(), num == want, where, "the protocol version is %s, expected %s", num, want)
			case "Transport":
				c.Check("configuration", f.Name(), k == "config.Transport", where, "the transport is "+cut(k))
			case "HBCIURL":
				empty, known := q.St.truth(mk("==", tBool, sym("config.URL", tString), cStr("")))
				good := k == "config.URL" || known && empty && strings.Contains(k, "bankinfo(config.BankID)") && strings.Contains(k, "URL")
				c.Check("configuration", f.Name(), good, where, "the address is "+cut(k))
			}
		}
	}
	c.use(in)
	c.Check("configuration", "a client can be made", n > 0, where, "no successful execution")
}
