package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P10"] = checkP10 }

// built is what a builder produced.
type built struct {
	id  string
	ver int64
	err bool
	bad string
}

// build asks the request builder for a request when the bank advertises the
// given segments.
func (c *Ctx) build(method string, listed []vseg) built {
	p := c.P
	x := &cli{c: c, listed: listed}
	st := p.NewState()
	in := NewInterp(p)
	in.MaxFork = 1
	in.ConvFork = false
	d, _ := c.newDlg(scenario{version: "FINTS300", acks: okAcks, present: 1})
	x.d = d
	nb := p.Func("segment", "NewBuilder")
	ps := in.Run(st, nb, x.listVal(in, st, nb.Signature.Params().At(0).Type()))
	if len(ps) != 1 || ps[0].Kind != "return" {
		return built{bad: "NewBuilder is not analysable"}
	}
	st = ps[0].St
	st.frames = nil
	it, ok := st.resolve(ps[0].Res[0]).(*Iface)
	if !ok {
		return built{bad: "NewBuilder returns no known object"}
	}
	fn := p.MethodOpt(it.Dyn, method)
	if fn == nil {
		return built{bad: "no such builder method"}
	}
	args := append([]Val{it.V}, symArgs(st, fn)[1:]...)
	ps = in.Run(st, fn, args...)
	c.use(in)
	var out *built
	for _, q := range ps {
		var b built
		switch {
		case q.Kind != "return" || len(q.Res) != 2:
			b.bad = "ends with " + q.Kind
		case q.success():
			q.St.frames = nil
			o := segOwner(q.St, q.Res[0])
			b.id, _ = asStr(d.call(q.St, o, "ID"))
			b.ver = versionOf(d, q.St, o)
		case q.failed():
			b.err = true
		default:
			b.bad = "neither a request nor an error"
		}
		if out != nil && *out != b {
			return built{bad: "the outcome depends on the arguments"}
		}
		out = &b
	}
	if out == nil {
		return built{bad: "no outcome"}
	}
	return *out
}

func versionOf(d *dlg, st *State, o Val) int64 {
	v, ok := asInt(d.call(st, o, "Version"))
	if !ok {
		return -1
	}
	return int64(v)
}

// versionsOf finds the versions of a request the library has a constructor
// for that takes the same arguments.
func (c *Ctx) versionsOf(id string, sig *types.Signature) map[int64]string {
	out := map[int64]string{}
	p := c.P
	d, _ := c.newDlg(scenario{version: "FINTS300", acks: okAcks, present: 1})
	for _, m := range p.Pkg("segment").Members {
		fn, ok := m.(*ssa.Function)
		if !ok || fn.Blocks == nil || !types.Identical(fn.Signature.Params(), sig.Params()) || fn.Signature.Results().Len() != 1 {
			continue
		}
		st := p.NewState()
		in := NewInterp(p)
		in.MaxFork = 1
		in.ConvFork = false
		ps := in.Run(st, fn, symArgs(st, fn)...)
		for _, q := range ps {
			if q.Kind != "return" {
				continue
			}
			q.St.frames = nil
			o := segOwner(q.St, q.Res[0])
			got, _ := asStr(d.call(q.St, o, "ID"))
			if v := versionOf(d, q.St, o); got == id && v >= 0 {
				out[v] = fn.Name()
			}
		}
	}
	return out
}

func checkP10(c *Ctx) {
	c.Rule("highest", "for every list of advertised versions, in every order, the request is built in the highest version that is advertised and buildable", 100)
	c.Rule("none", "if none of the advertised versions can be built an error is returned", 20)
	c.Rule("own parameters", "only the parameter segment of the same order kind is consulted", 20)
	c.Rule("exact", "a request built for a single advertised version carries that version and the identifier of its order", 5)
	c.Rule("complete", "every version of a request the library has a constructor for can be chosen", 5)
	c.Rule("nothing sent", "if the request cannot be built the client operation fails without sending anything", 5)
	c.Assume = append(c.Assume, "lists of up to three advertised versions stand for longer ones")
	bt := c.P.TypeNamed("segment", "Builder")
	ifc := under(bt).(*types.Interface)
	where := "segment"
	kinds := []string{"KAZ", "SAL", "PRO", "KIF", "TAN", "KOM", "UEB", "PIN", "ISA"}
	for i := 0; i < ifc.NumMethods(); i++ {
		m := ifc.Method(i)
		name := m.Name()
		where = c.P.Pos(m.Pos())
		sig := m.Type().(*types.Signature)
		// the parameter segment that enables the request
		var set []int64
		order, param := "", ""
		others := map[string]bool{}
		for v := int64(0); v <= 12; v++ {
			for _, k := range kinds {
				b := c.build(name, []vseg{{"HI" + k + "S", v}})
				if b.bad != "" {
					c.Check("exact", fmt.Sprintf("%s, version %d", name, v), false, where, b.bad)
					continue
				}
				if b.err {
					continue
				}
				if order == "" {
					order = b.id
					param = paramsID(b.id)
				}
				if "HI"+k+"S" != param {
					others["HI"+k+"S"] = true
					continue
				}
				c.Check("exact", fmt.Sprintf("%s, version %d", name, v), b.ver == v && b.id == order, where, fmt.Sprintf("for version %d a request %s in version %d is built", v, b.id, b.ver))
				set = append(set, v)
			}
		}
		c.Check("exact", name+" can be built", len(set) > 0, where, "no advertised version leads to a request")
		if len(set) == 0 {
			continue
		}
		c.Check("own parameters", name+" alone", len(others) == 0, where, fmt.Sprintf("%s is also built from %v", order, keys(others)))
		have := map[int64]bool{}
		for _, v := range set {
			have[v] = true
		}
		for v, f := range c.versionsOf(order, sig) {
			c.Check("complete", fmt.Sprintf("%s, version %d", name, v), have[v], where, fmt.Sprintf("version %d (%s) of %s is never chosen", v, f, order))
		}
		lo, hi := set[0]-1, set[len(set)-1]+1
		univ := append([]int64{lo, hi}, set...)
		sort.Slice(univ, func(i, j int) bool { return univ[i] < univ[j] })
		var lists [][]int64
		for _, a := range univ {
			lists = append(lists, []int64{a})
			for _, b := range univ {
				lists = append(lists, []int64{a, b})
				for _, d := range univ {
					lists = append(lists, []int64{a, b, d})
				}
			}
		}
		lists = append(lists, nil)
		noise := []vseg{}
		for _, k := range kinds {
			if id := "HI" + k + "S"; id != param {
				for _, v := range univ {
					noise = append(noise, vseg{id, v})
				}
			}
		}
		for _, l := range lists {
			want := int64(-1)
			var segs []vseg
			for _, v := range l {
				if have[v] && v > want {
					want = v
				}
				segs = append(segs, vseg{param, v})
			}
			judge := func(rule, label string, b built) {
				if want < 0 {
					if rule == "highest" {
						rule = "none"
					}
					c.Check(rule, label, b.bad == "" && b.err, where, fmt.Sprintf("no version can be built, but the result is %s version %d %s", b.id, b.ver, b.bad))
					return
				}
				c.Check(rule, label, b.bad == "" && !b.err && b.id == order && b.ver == want, where,
					fmt.Sprintf("advertised %v, buildable %v: the result is %s version %d (error: %v) %s", l, set, b.id, b.ver, b.err, b.bad))
			}
			judge("highest", fmt.Sprintf("%s, advertised %v", name, l), c.build(name, segs))
			if len(l) <= 1 {
				mixed := append(append(append([]vseg(nil), noise[:len(noise)/2]...), segs...), noise[len(noise)/2:]...)
				judge("own parameters", fmt.Sprintf("%s, advertised %v among others", name, l), c.build(name, mixed))
			}
		}
	}
	// the client
	for _, op := range []string{"AccountTransactions", "SepaAccountTransactions", "AccountBalances", "SepaAccountBalances", "Status"} {
		fn := c.P.Method("client", "Client", op)
		for li, l := range [][]vseg{nil, {{paramsID(orderOf[op]), 99}}, {{"HIXYZS", 1}, {"HITANS", 6}}} {
			x, st := c.newCli()
			x.client(st)
			x.acks = benignAcks
			x.listed = l
			a := clientArgs(st, fn)
			var bad []string
			for _, p := range x.run(st, op, a.vals...) {
				if p.Kind != "return" || !p.failed() {
					bad = append(bad, "no error is returned")
				}
				if n := len(x.orders(p)); n > 0 {
					bad = append(bad, fmt.Sprintf("%d messages are sent", n))
				}
			}
			c.Check("nothing sent", fmt.Sprintf("%s, list %d", op, li+1), len(bad) == 0, c.P.Pos(fn.Pos()), strings.Join(bad, ", "))
		}
	}
}
