package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P14"] = checkP14 }

func benignAcks(int) [][]Val { return [][]Val{{cInt(20)}} }

// opArgs are the symbolic arguments of a client operation by their role.
type opArgs struct {
	vals []Val
	role map[string]Val
}

// clientArgs makes the arguments of a client operation. Roles are assigned by
// type, so that renaming a parameter changes nothing.
func clientArgs(st *State, fn *ssa.Function) *opArgs {
	a := &opArgs{role: map[string]Val{}}
	all := symArgs(st, fn)[1:]
	a.vals = all
	ps := fn.Signature.Params()
	for i := 0; i < ps.Len(); i++ {
		t := ps.At(i).Type()
		n := namedOf(t)
		role := ""
		switch {
		case nameIs(n, "domain", "AccountConnection"), nameIs(n, "domain", "InternationalAccountConnection"):
			role = "account"
		case nameIs(n, "domain", "Timeframe"):
			for _, f := range structFields(n) {
				r := "to"
				if strings.HasPrefix(f.Name(), "Start") {
					r = "from"
				}
				a.role[r] = mk("."+f.Name(), f.Type(), all[i])
			}
			continue
		case nameIs(n, "domain", "BankID"):
			role = "frombank"
			if a.role[role] != nil {
				role = "tobank"
			}
		case n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time":
			role = "from"
			if a.role[role] != nil {
				role = "to"
			}
		default:
			if b, ok := under(t).(*types.Basic); ok {
				switch {
				case b.Info()&types.IsBoolean != 0:
					role = "all"
				case b.Info()&types.IsInteger != 0:
					role = "max"
				case b.Info()&types.IsString != 0:
					role = "cont"
				}
			}
		}
		if role == "" || a.role[role] != nil {
			fatalf("parameter %s of %s has no known role", ps.At(i).Name(), fn)
		}
		a.role[role] = all[i]
	}
	return a
}

// orderOf is the wire identifier of the order a client operation sends.
var orderOf = map[string]string{
	"AccountTransactions":     "HKKAZ",
	"SepaAccountTransactions": "HKKAZ",
	"AccountBalances":         "HKSAL",
	"SepaAccountBalances":     "HKSAL",
	"Status":                  "HKPRO",
	"AccountInformation":      "HKKIF",
	"CommunicationAccess":     "HKKOM",
}

// wirePos is the data element of an order each part of the request belongs
// to, as prescribed by the protocol (element 0 is the segment header).
var wirePos = map[string]map[string]int{
	"HKKAZ": {"account": 1, "all": 2, "from": 3, "to": 4, "max": 5, "cont": 6},
	"HKSAL": {"account": 1, "all": 2, "max": 3, "cont": 4},
	"HKKIF": {"account": 1, "all": 2, "max": 3, "cont": 4},
	"HKKOM": {"frombank": 1, "tobank": 2, "max": 3, "cont": 4},
	"HKPRO": {"from": 1, "to": 2, "max": 3, "cont": 4},
}

func paramsID(order string) string { return "HI" + order[2:] + "S" }

// only segments of the order id, in the given order
func (x *cli) orderSegs(o *sentOrder, id string) (l []Val) {
	for _, s := range o.segs {
		if x.segID(o.ev.St, s) == id {
			l = append(l, s)
		}
	}
	return
}

// clock removes the distinction between several readings of the clock.
func clockFree(s string) string {
	for {
		i := strings.Index(s, "call:time.Now#")
		if i < 0 {
			return s
		}
		j := i + len("call:time.Now#")
		for j < len(s) && s[j] >= '0' && s[j] <= '9' {
			j++
		}
		s = s[:i] + "NOW" + s[j:]
	}
}

// leaves lists, in order, the outermost terms whose operator has the prefix.
func leaves(v Val, prefix string) (l []string) {
	if v == nil {
		return
	}
	walk(v, func(x Val) bool {
		if t, ok := x.(*Term); ok && strings.HasPrefix(t.Op, prefix) {
			l = append(l, t.Key())
			return false
		}
		return true
	})
	return
}

func checkP14(c *Ctx) {
	c.Rule("pages", "exactly one request is sent per page: one more after every answer with a continuation notice, none after an answer without", 24)
	c.Rule("reference", "every further request carries the continuation reference of the latest answer, the first one the caller's", 30)
	c.Rule("same request", "every further request repeats the account, all-accounts flag, time frame and version of the first one", 16)
	c.Rule("result", "the result is made of the entries of all pages, each exactly once, in the order of the pages", 24)
	c.Assume = append(c.Assume, "answers over up to three pages stand for longer ones", "a continuation reference supplied by the bank is not empty")
	ops := []string{"AccountTransactions", "SepaAccountTransactions", "AccountBalances", "SepaAccountBalances"}
	for _, op := range ops {
		id := orderOf[op]
		fn := c.P.Method("client", "Client", op)
		where := c.P.Pos(fn.Pos())
		for n := 1; n <= 3; n++ {
			for variant := 0; variant < 3; variant++ {
				x, st := c.newCli()
				x.client(st)
				for v := int64(1); v <= 9; v++ {
					x.listed = append(x.listed, vseg{paramsID(id), v})
				}
				if n == 3 {
					x.found = 1
				}
				variant := variant
				cont := func(k int) Val {
					t := sym(fmt.Sprintf("cont:%d", k), types.Typ[types.String])
					return t
				}
				for k := 1; k < n; k++ {
					st.setIv(mk("len", tInt, cont(k)), 1, 1<<20)
				}
				other := sym("otherparam", types.Typ[types.String])
				x.acks = func(k int) [][]Val {
					more := []Val{cInt(3040), cont(k)}
					if variant == 2 {
						more = append(more, other)
					}
					switch {
					case k < n && variant == 1:
						return [][]Val{more, {cInt(20), other}}
					case k < n:
						return [][]Val{{cInt(10)}, {cInt(20)}, more}
					case variant == 1:
						return [][]Val{{cInt(20), other}, {cInt(3920), other}}
					case variant == 2:
						return [][]Val{{cInt(3010)}, {cInt(3041), other}}
					}
					return [][]Val{{cInt(20)}}
				}
				a := clientArgs(st, fn)
				name := fmt.Sprintf("%s, %d pages, answer form %d", op, n, variant)
				ps := x.run(st, op, a.vals...)
				good := 0
				for _, p := range ps {
					if p.Kind != "return" {
						c.Check("pages", name, false, p.Where, fmt.Sprintf("the operation ends with %s", p.Kind))
						continue
					}
					orders := x.orders(p)
					if !p.success() {
						// a page of an unexpected type
						continue
					}
					good++
					c.Check("pages", name, len(orders) == n, where, fmt.Sprintf("%d requests sent for %d pages", len(orders), n))
					if len(orders) != n {
						continue
					}
					first := ""
					for k, o := range orders {
						segs := x.orderSegs(o, id)
						if len(segs) != 1 {
							c.Check("reference", name, false, where, fmt.Sprintf("request %d holds %d %s segments", k+1, len(segs), id))
							continue
						}
						norm := map[string]bool{}
						for _, q := range x.texts(o.ev.St, segs[0]) {
							if q.Kind != "return" {
								c.Check("reference", name, false, q.Where, "the request cannot be written: "+q.Kind)
								continue
							}
							fs := wireFields(q.Res[0])
							pos := wirePos[id]["cont"]
							ref := ""
							if pos < len(fs) {
								ref = fieldKeyOf(fs[pos])
							}
							want := ""
							if k > 0 {
								want = cont(k).Key()
								c.Check("reference", fmt.Sprintf("%s, request %d", name, k+1), strings.Contains(ref, want) && strings.Count(ref, "cont:") == 1 && !strings.Contains(ref, "arg:"), where,
									fmt.Sprintf("continuation field of request %d is %s, the bank supplied %s", k+1, cut(ref), want))
							} else if r := a.role["cont"]; r != nil {
								empty, known := q.St.truth(mk("==", types.Typ[types.Bool], r, cStr("")))
								c.Check("reference", fmt.Sprintf("%s, request 1", name), strings.Contains(ref, r.Key()) || known && empty, where,
									fmt.Sprintf("continuation field of the first request is %s, the caller passed %s", cut(ref), r.Key()))
							} else {
								c.Check("reference", fmt.Sprintf("%s, request 1", name), ref == "", where, "the first request carries continuation "+cut(ref))
							}
							s := ""
							for i, f := range fs {
								if i != pos {
									s += clockFree(fieldKeyOf(f)) + "+"
								}
							}
							norm[strings.TrimRight(s, "+'")] = true
						}
						l := strings.Join(keys(norm), "\n")
						if k == 0 {
							first = l
						} else {
							c.Check("same request", fmt.Sprintf("%s, request %d", name, k+1), l == first, where, fmt.Sprintf("request %d differs from the first: %s instead of %s", k+1, cut(l), cut(first)))
						}
					}
					var want []string
					get := "get:"
					for k := 1; k <= n; k++ {
						for i := 0; i < x.found; i++ {
							want = append(want, fmt.Sprintf("%d.%d", k, i))
						}
					}
					var got []string
					res := x.in.deep(p.St, p.Res[0])
					walk(res, func(v Val) bool {
						t, ok := v.(*Term)
						if !ok || !strings.HasPrefix(t.Op, get) {
							return true
						}
						if f, ok := t.A[0].(*Term); ok && strings.HasPrefix(f.Op, "found.") {
							id2, _ := asStr(f.A[1])
							if id2 == "HI"+id[2:] {
								got = append(got, strings.TrimPrefix(f.A[0].(*Term).Op, "resp:")+"."+strings.TrimPrefix(f.Op, "found."))
							}
						}
						return false
					})
					c.Check("result", name, strings.Join(got, " ") == strings.Join(want, " "), where,
						fmt.Sprintf("the result holds the entries [%s] (page.segment), delivered were [%s]", strings.Join(got, " "), strings.Join(want, " ")))
				}
				c.Check("pages", name+" can succeed", good > 0, where, "no successful execution")
			}
		}
	}
}
