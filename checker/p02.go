package main

import (
	"fmt"
	"strings"
)

// dialogScenarios are the environments P02 to P04 are decided in.
func dialogScenarios(faults bool) []scenario {
	var out []scenario
	for _, v := range dialogVersions {
		for _, o := range dialogOps {
			for _, synced := range []bool{true, false} {
				if !synced && !o.auth {
					continue
				}
				for _, enc := range []bool{true, false} {
					if enc && !o.auth {
						continue
					}
					for _, pres := range []int{0, 1} {
						for f := 0; f < 2; f++ {
							if f == 1 && !faults {
								continue
							}
							sc := scenario{op: o.name, version: v, encrypted: enc, synced: synced, present: pres, faults: f, acks: okAcks}
							sc.label = fmt.Sprintf("%s %s %s %s %s faults=%d", o.name, v, pick(synced, "synchronised", "unsynchronised"), pick(enc, "encrypted", "plain"), pick(pres == 1, "with-data", "without-data"), f)
							out = append(out, sc)
							if pres == 0 && f == 0 {
								for _, a := range []struct {
									name string
									l    []codeIv
								}{{"warnings", []codeIv{{3000, 3999}}}, {"silent", nil}} {
									l, w := a.l, sc
									w.acks = func(int) []codeIv { return l }
									w.label += " " + a.name
									out = append(out, w)
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func pick(b bool, x, y string) string {
	if b {
		return x
	}
	return y
}

// conversation is one dialog within a path.
type conversation struct {
	msgs   []*sentMsg
	resp   int // response number of the opening, 0 when none
	opened bool
	sync   bool
}

// conversations splits the messages of a path into dialogs.
func (d *dlg) conversations(p Path) []*conversation {
	var out []*conversation
	msgs := d.sent(p)
	evs := p.St.Events()
	for i, m := range msgs {
		opening := m.has("HKIDN") != nil
		if opening || len(out) == 0 {
			cv := &conversation{sync: m.has("HKSYN") != nil}
			out = append(out, cv)
			if opening {
				// response following the send
				for j, e := range evs {
					if e.N <= m.ev.N {
						continue
					}
					if i+1 < len(msgs) && e.N >= msgs[i+1].ev.N {
						break
					}
					if e.Kind == "resp" {
						fmt.Sscanf(e.Args[0].(*Term).Op, "resp:%d", &cv.resp)
						cv.opened = j+1 >= len(evs) || evs[j+1].Kind != "fault:resp"
						break
					}
				}
			}
		}
		cv := out[len(out)-1]
		cv.msgs = append(cv.msgs, m)
	}
	return out
}

// isAssignedID reports whether v is the dialog id of the header of response n.
func isAssignedID(v Val, n int) bool {
	ok := false
	var chain func(v Val, seen bool)
	chain = func(v Val, seen bool) {
		t, isT := stripConv(v).(*Term)
		if !isT {
			return
		}
		if t.Op == "respheader" {
			if r, isR := t.A[0].(*Term); isR && r.Op == fmt.Sprintf("resp:%d", n) && seen {
				ok = true
			}
			return
		}
		if t.Op == ".DialogID" {
			seen = true
		}
		if (t.Op == "val" || t.Op == "*" || strings.HasPrefix(t.Op, ".")) && len(t.A) == 1 {
			chain(t.A[0], seen)
		}
	}
	chain(v, false)
	return ok
}

func checkP02(c *Ctx) {
	c.Rule("opening", "the first message of a dialog has dialog id \"0\" and message number 1 on every path, for every earlier history of the dialog object", 20)
	c.Rule("assigned", "later messages carry the dialog id of the header of that dialog's opening response", 20)
	c.Rule("number", "message numbers of consecutive messages of a dialog grow by exactly one", 20)
	c.Rule("trailer", "header and trailer of a message carry the same number", 40)
	c.Rule("end-id", "the dialog end order names the dialog id the bank assigned", 10)
	c.checkOps()
	for _, sc := range dialogScenarios(true) {
		if sc.faults == 1 && sc.present == 1 {
			continue
		}
		d, ps := c.operation(sc)
		for _, p := range ps {
			for ci, cv := range d.conversations(p) {
				for mi, m := range cv.msgs {
					lab := fmt.Sprintf("%s, dialog %d, message %d", sc.label, ci+1, mi+1)
					h, e := m.has("HNHBK"), m.has("HNHBS")
					where := c.P.Pos(m.ev.Pos)
					if h == nil || e == nil {
						c.Check("opening", lab, false, where, "message without header or trailer: %v", m)
						continue
					}
					id := d.fieldVal(h.ev.St, h.seg, "DialogID")
					num := d.fieldVal(h.ev.St, h.seg, "Number")
					end := d.fieldVal(e.ev.St, e.seg, "Number")
					if mi == 0 {
						s, isC := asStr(id)
						n, isN := asInt(num)
						c.Check("opening", lab, isC && s == "0" && isN && n == 1 && m.has("HKIDN") != nil, where, "opening message %v has dialog id %s and number %s", m, cut(keyOf(id)), cut(keyOf(num)))
					} else {
						c.Check("assigned", lab, cv.opened && isAssignedID(id, cv.resp), where, "message %v has dialog id %s instead of the one of response %d", m, cut(keyOf(id)), cv.resp)
						n, isN := asInt(num)
						c.Check("number", lab, isN && n == mi+1, where, "message %v has number %s instead of %d", m, cut(keyOf(num)), mi+1)
					}
					c.Check("trailer", lab, num != nil && end != nil && keyOf(num) == keyOf(end), where, "header number %s, trailer number %s", cut(keyOf(num)), cut(keyOf(end)))
					if x := m.has("HKEND"); x != nil {
						v := d.fieldVal(x.ev.St, x.seg, "DialogID")
						c.Check("end-id", lab, isAssignedID(v, cv.resp), where, "dialog end names %s", cut(keyOf(v)))
					}
				}
			}
		}
	}
}

func checkP03(c *Ctx) {
	c.Rule("ended-once", "on every path on which the opening response was accepted exactly one dialog end message is attempted after it, whatever fails in between", 40)
	c.Rule("not-opened", "no dialog end message is sent on paths on which the dialog was not opened", 10)
	c.Rule("sync-ended", "a synchronisation that succeeds has ended its dialog", 4)
	c.Assume = append(c.Assume, "at most one failure of the environment per operation")
	c.checkOps()
	scs := dialogScenarios(true)
	for _, v := range dialogVersions {
		for _, o := range dialogOps {
			for r := range o.roles {
				sc := scenario{op: o.name, version: v, encrypted: o.auth, synced: true, present: 0}
				sc.acks = func(resp int) []codeIv {
					if resp == r+1 {
						return []codeIv{okCode, errorCode}
					}
					return []codeIv{okCode}
				}
				sc.label = fmt.Sprintf("%s %s rejected %s", o.name, v, o.roles[r])
				scs = append(scs, sc)
			}
		}
		// parameter data that may be present or not and of any type
		scs = append(scs, scenario{op: "SyncUserParameterData", version: v, encrypted: true, synced: true, present: -1, acks: func(int) []codeIv { return []codeIv{{3920, 3920}} }, label: "SyncUserParameterData " + v + " any data"})
	}
	for _, sc := range scs {
		d, ps := c.operation(sc)
		for _, p := range ps {
			if p.Kind == "trunc" {
				continue
			}
			if p.Kind == "panic" {
				continue // crashes are the subject of P11
			}
			mars := d.mars(p)
			convs := d.conversations(p)
			rejected := func(cv *conversation) bool {
				if sc.acks == nil {
					return false
				}
				for _, iv := range sc.acks(cv.resp) {
					if iv.lo >= 9000 {
						return true
					}
				}
				return false
			}
			isEnd := func(v Val) bool {
				ops, _ := pieces(v)
				for _, op := range ops {
					if m := mars[op]; m != nil && m.id == "HKEND" {
						return true
					}
				}
				return false
			}
			for ci, cv := range convs {
				start := cv.msgs[0].ev.N
				stop := 1 << 30
				if ci+1 < len(convs) {
					stop = convs[ci+1].msgs[0].ev.N
				}
				attempts := 0
				for _, m := range cv.msgs {
					if m.has("HKEND") != nil {
						attempts++
					}
				}
				for _, e := range p.St.Events() {
					if e.N <= start || e.N >= stop {
						continue
					}
					if (e.Kind == "fault:Sign" || e.Kind == "fault:Encrypt") && len(e.Args) > 1 && isEnd(e.Args[1]) {
						attempts++
					}
				}
				accepted := cv.opened && !rejected(cv)
				lab := fmt.Sprintf("%s, dialog %d (%s)", sc.label, ci+1, pathLabel(p, d))
				where := p.Where
				switch {
				case !accepted:
					c.Check("not-opened", lab, attempts == 0, where, "%d dialog end messages although the dialog was not opened", attempts)
				case cv.sync:
					ok := attempts <= 1
					if p.success() || ci+1 < len(convs) {
						ok = attempts == 1
					}
					c.Check("sync-ended", lab, ok, where, "%d dialog end messages after the synchronisation", attempts)
				default:
					c.Check("ended-once", lab, attempts == 1, where, "%d dialog end messages after the accepted opening: %v", attempts, cv.msgs)
				}
			}
		}
	}
}

// pathLabel names a path by its outcome and injected failure.
func pathLabel(p Path, d *dlg) string {
	l := "fails"
	if p.success() {
		l = "succeeds"
	}
	f := ""
	n := 0
	for _, e := range p.St.Events() {
		if e.Kind == "send" {
			n++
		}
		if strings.HasPrefix(e.Kind, "fault:") {
			f = fmt.Sprintf(", %s fails after message %d", strings.TrimPrefix(e.Kind, "fault:"), n)
		}
	}
	return l + f
}

func checkP04(c *Ctx) {
	c.Rule("envelope", "a message of an authenticated dialog consists of header, encryption header, encrypted data and trailer", 20)
	c.Rule("payload", "the encrypted data is what the dialog's encryption provider made of signature header, orders and signature trailer in this order", 20)
	c.Rule("orders", "the payload of an order message contains the caller's orders in the given order and nothing else", 4)
	c.Rule("signature", "the signature trailer carries the signature the dialog's signature provider successfully made over signature header and orders, before encryption", 20)
	c.Rule("headers", "signature and encryption header are completed by the dialog's providers before they are written", 20)
	c.Rule("failed", "a message whose signing or encryption failed is not sent", 4)
	c.Rule("anonymous", "anonymous messages contain neither signature nor encryption segments", 4)
	c.checkOps()
	for _, sc := range dialogScenarios(true) {
		if sc.present == 1 {
			continue
		}
		d, ps := c.operation(sc)
		auth := true
		order := false
		for _, o := range dialogOps {
			if o.name == sc.op {
				auth, order = o.auth, o.order
			}
		}
		for _, p := range ps {
			if p.Kind != "return" {
				continue
			}
			mars := d.mars(p)
			provs := map[string]string{}
			for i, f := range structFields(d.dt) {
				if n := namedOf(f.Type()); n != nil && (n == d.sp || n == d.cp) {
					if v, ok := getPath(p.St.get(d.obj), []int{i}); ok {
						provs[n.Obj().Name()] = p.St.resolve(v).Key()
					}
				}
			}
			evs := p.St.Events()
			msgs := d.sent(p)
			for mi, m := range msgs {
				lab := fmt.Sprintf("%s, message %d", sc.label, mi+1)
				where := c.P.Pos(m.ev.Pos)
				isOrder := order && mi == len(msgs)-2 && sc.faults == 0
				if !auth {
					bad := ""
					for _, id := range m.ids {
						if id == "HNSHK" || id == "HNSHA" || id == "HNVSK" || id == "HNVSD" || strings.HasPrefix(id, "encrypt#") {
							bad = id
						}
					}
					c.Check("anonymous", lab, bad == "" && len(m.ids) >= 3 && m.ids[0] == "HNHBK" && m.ids[len(m.ids)-1] == "HNHBS", where, "anonymous message %v contains %s", m, bad)
					if isOrder {
						c.Check("orders", lab, len(m.ids) == 4 && m.ids[1] == "order:1" && m.ids[2] == "order:2", where, "order message %v", m)
					}
					continue
				}
				c.Check("envelope", lab, fmt.Sprint(m.ids) == "[HNHBK HNVSK HNVSD HNHBS]", where, "message sent is %v", m)
				n := len(m.inner)
				okp := m.enc != nil && n >= 3 && len(m.innerIDs) == n && m.inner[0].id == "HNSHK" && m.inner[n-1].id == "HNSHA" && m.enc.Args[0].Key() == provs["CryptoProvider"] && m.enc.N < m.ev.N
				for _, x := range m.inner[min(1, n):max(0, n-1)] {
					if len(x.id) > 2 && x.id[:2] == "HN" {
						okp = false
					}
				}
				c.Check("payload", lab, okp, where, "encrypted payload is %v %s", m, m.badData)
				if isOrder {
					c.Check("orders", lab, n == 4 && m.inner[1].id == "order:1" && m.inner[2].id == "order:2", where, "order message %v", m)
				}
				if !okp {
					continue
				}
				// the signature
				hk, ha := m.inner[0], m.inner[n-1]
				why := "no signature was written to the trailer sent"
				for _, e := range evs {
					if e.Kind != "WriteSignature" || len(e.Args) < 3 {
						continue
					}
					if segOwner(e.St, e.Args[1]).Key() != ha.seg.Key() {
						continue
					}
					why = ""
					if e.Args[0].Key() != provs["SignatureProvider"] {
						why = "signature written by " + cut(e.Args[0].Key())
					}
					if e.N > ha.ev.N {
						why = "the trailer is encoded before the signature is written to it"
					}
					sig, _ := stripConv(e.Args[2]).(*Term)
					var se *Event
					for i, s := range evs {
						if s.Kind == "Sign" && sig != nil && s.Args[len(s.Args)-1].Key() == sig.Key() && (i+1 >= len(evs) || evs[i+1].Kind != "fault:Sign") {
							se = s
						}
					}
					if se == nil {
						why = "the signature written is not the result of a successful Sign: " + cut(e.Args[2].Key())
						continue
					}
					if se.Args[0].Key() != provs["SignatureProvider"] {
						why = "signed by " + cut(se.Args[0].Key())
					}
					if se.N > m.enc.N {
						why = "signed after the encryption"
					}
					ops, _ := pieces(se.Args[1])
					var want, got []string
					for _, x := range m.inner[:n-1] {
						want = append(want, x.seg.Key())
					}
					for _, op := range ops {
						if x := mars[op]; x != nil {
							got = append(got, x.seg.Key())
						} else {
							got = append(got, op)
						}
					}
					if fmt.Sprint(want) != fmt.Sprint(got) {
						why = fmt.Sprintf("the signature covers %v instead of signature header and orders %v", got, want)
					}
				}
				c.Check("signature", lab, why == "", where, "%s", why)
				why = ""
				for _, x := range []struct {
					kind string
					m    *segMar
					prov string
				}{{"WriteSignatureHeader", hk, "SignatureProvider"}, {"WriteEncryptionHeader", m.has("HNVSK"), "CryptoProvider"}} {
					found := false
					for _, e := range evs {
						if e.Kind == x.kind && x.m != nil && segOwner(e.St, e.Args[1]).Key() == x.m.seg.Key() && e.N < x.m.ev.N && e.Args[0].Key() == provs[x.prov] {
							found = true
						}
					}
					if !found {
						why = x.kind + " of the dialog's provider is not applied to the header sent"
					}
				}
				c.Check("headers", lab, why == "", where, "%s", why)
			}
			// failures
			for _, e := range evs {
				if e.Kind != "fault:Sign" && e.Kind != "fault:Encrypt" {
					continue
				}
				bad := ""
				lost := map[string]bool{}
				ops, _ := pieces(e.Args[1])
				for _, op := range ops {
					if x := mars[op]; x != nil && x.id != "HNSHK" && x.id != "HNSHA" {
						lost[x.seg.Key()] = true
					}
				}
				for _, m := range msgs {
					for _, x := range m.all() {
						if m.ev.N > e.N && lost[x.seg.Key()] {
							bad = fmt.Sprintf("%v is sent although %s failed", m, strings.TrimPrefix(e.Kind, "fault:"))
						}
					}
				}
				c.Check("failed", fmt.Sprintf("%s, %s", sc.label, pathLabel(p, d)), bad == "", c.P.Pos(e.Pos), "%s", bad)
			}
		}
	}
}
