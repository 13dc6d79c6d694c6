package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P36"] = checkP36 }

// checkP36 decides that a client operation hands out every answer to its order
// and nothing else.
func checkP36(c *Ctx) {
	c.Rule("answers", "the result holds what the response segments answering the order say, one entry per segment, in their order", 20)
	c.Rule("foreign", "nothing of the result stems from a segment that does not answer the order", 20)
	c.Rule("missing", "a response without any answer makes balance and account information requests fail, and gives an empty result otherwise", 6)
	c.Rule("shown", "account information that was received is printed", 1)
	c.Assume = append(c.Assume, "responses with up to three answering segments stand for longer ones")
	for _, op := range []string{"AccountTransactions", "SepaAccountTransactions", "AccountBalances", "SepaAccountBalances", "Status", "AccountInformation", "CommunicationAccess"} {
		fn := c.P.MethodOpt(types.NewPointer(c.P.TypeNamed("client", "Client")), op)
		if fn == nil {
			fn = c.P.Method("client", "AnonymousClient", op)
		}
		for n := 0; n <= 3; n++ {
			c.judgeAnswers(fn, n)
		}
	}
}

func (c *Ctx) judgeAnswers(fn *ssa.Function, n int) {
	op := fn.Name()
	id := orderOf[op]
	answer := "HI" + id[2:]
	where := c.P.Pos(fn.Pos())
	name := fmt.Sprintf("%s, %d answers", op, n)
	x, st := c.newCli()
	x.client(st)
	x.synced = true
	x.acks = benignAcks
	for v := int64(1); v <= 9; v++ {
		x.listed = append(x.listed, vseg{paramsID(id), v})
	}
	x.found = n
	x.extra = func(k *Call) ([]Outcome, bool) {
		if strings.HasPrefix(k.Name, "fmt.Print") || strings.HasPrefix(k.Name, "fmt.Fprint") {
			var l []Val
			for _, a := range k.Args {
				l = append(l, k.In.deep(k.St, a))
			}
			k.St.emit("printed", k.Instr.Pos(), l...)
			return nil, false
		}
		if k.Callee != nil || k.Method == nil {
			return nil, false
		}
		t, ok := k.Recv.(*Term)
		if !ok || !strings.HasPrefix(t.Op, "resp:") {
			return nil, false
		}
		rs := k.Sig.Results()
		switch m := k.Method.Name(); m {
		case "FindMarshaledSegment", "FindSegment":
			// the first segment with the id
			if n == 0 {
				return []Outcome{{Res: zero(rs.At(0).Type())}}, true
			}
			r := mk("found.0", rs.At(0).Type(), t, k.In.deep(k.St, k.Args[0]))
			nonNilTerm(k.St, r)
			if isByteSlice(r.T) {
				k.St.setIv(mk("len", tInt, r), 1, 1<<20)
			}
			return []Outcome{{Res: r}}, true
		case "FindMarshaledSegments":
			et := under(rs.At(0).Type()).(*types.Slice).Elem()
			var ps []Part
			for i := 0; i < n; i++ {
				r := mk(fmt.Sprintf("found.%d", i), et, t, k.In.deep(k.St, k.Args[0]))
				nonNilTerm(k.St, r)
				ps = append(ps, Part{V: r})
			}
			return []Outcome{{Res: k.In.newSlice(k.St, rs.At(0).Type(), ps)}}, true
		}
		return nil, false
	}
	good, ends := 0, 0
	for _, p := range x.run(st, op, clientArgs(st, fn).vals...) {
		if p.Kind != "return" {
			c.Check("answers", name, p.Kind == "trunc", p.Where, "the operation ends with %s", p.Kind)
			continue
		}
		ends++
		if !p.success() {
			continue
		}
		good++
		var seen, foreign []string
		look := func(v Val) {
			walk(v, func(y Val) bool {
				t, ok := y.(*Term)
				if !ok || !strings.HasPrefix(t.Op, "found.") || len(t.A) < 2 {
					return true
				}
				got, _ := asStr(t.A[1])
				if got != answer {
					foreign = append(foreign, got)
					return false
				}
				if e := strings.TrimPrefix(t.Op, "found."); len(seen) == 0 || seen[len(seen)-1] != e {
					seen = append(seen, e)
				}
				return false
			})
		}
		var want []string
		for i := 0; i < n; i++ {
			want = append(want, fmt.Sprint(i))
		}
		if len(p.Res) > 1 {
			res := x.in.deep(p.St, p.Res[0])
			look(res)
			if op == "CommunicationAccess" {
				// the answer as a whole
				c.Check("answers", name, mentionsOp(res, "resp:1"), where, "the result is %s", cut(res.Key()))
				continue
			}
			c.Check("foreign", name, len(foreign) == 0, where, "the result is taken from %s segments, the order is answered by %s", strings.Join(foreign, " "), answer)
			c.Check("answers", name, strings.Join(seen, " ") == strings.Join(want, " "), where, "the result holds the answers [%s] of [%s]", strings.Join(seen, " "), strings.Join(want, " "))
			continue
		}
		for _, e := range p.St.Events() {
			if e.Kind == "printed" {
				for _, a := range e.Args {
					look(a)
				}
			}
		}
		c.Check("foreign", name, len(foreign) == 0, where, "%s segments are printed, the order is answered by %s", strings.Join(foreign, " "), answer)
		if n > 0 {
			c.Check("shown", name, len(seen) > 0, where, "the answer is not printed")
		}
	}
	if op == "CommunicationAccess" {
		return
	}
	c.Check("answers", name+" is decided", ends > 0, where, "no execution found")
	fails := n == 0 && (id == "HKSAL" || id == "HKKIF")
	if n == 0 {
		c.Check("missing", name, fails == (good == 0), where, "%d of %d executions succeed", good, ends)
	} else {
		c.Check("missing", name, good > 0, where, "no execution succeeds")
	}
}
