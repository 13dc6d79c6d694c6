package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P13"] = checkP13 }

// streams interprets readers and writers symbolically: what was written to an
// encoder is known exactly, and what a reader still delivers is tracked
// through consumption and closing.
type streams struct {
	c *Ctx
	n int
}

func (x *streams) id(st *State) string {
	n := bump(st, "streams")
	return fmt.Sprint(n)
}

// source is a reader of unknown content.
func (x *streams) source(st *State, name string, t types.Type) *Term {
	s := mk("src:"+name, t)
	nonNilTerm(st, s)
	st.notes[s.key] = mk("content:"+name, tBytes)
	return s
}

func unwrap(st *State, v Val) Val {
	v = st.resolve(v)
	for {
		i, ok := v.(*Iface)
		if !ok {
			return v
		}
		v = st.resolve(i.V)
	}
}

// read takes everything a reader still delivers.
func (x *streams) read(in *Interp, st *State, v Val) Val {
	v = unwrap(st, v)
	if t, ok := v.(*Term); ok {
		switch {
		case strings.HasPrefix(t.Op, "src:"):
			c, known := st.notes[t.key]
			if !known {
				c = mk("content:"+t.key, tBytes)
			}
			st.notes[t.key] = cStr("")
			return c
		case t.Op == "rd:nop":
			return x.read(in, st, t.A[0])
		case strings.HasPrefix(t.Op, "rd:tee"):
			c := x.read(in, st, t.A[0])
			x.write(in, st, t.A[1], c)
			return c
		case t.Op == "rd:b64":
			return mk("b64dec", tBytes, t.A[0], x.read(in, st, t.A[1]))
		}
	}
	if o, path, c, ok := in.bufContent(st, v); ok {
		cur, _ := getPath(st.get(o), path)
		if n, ok := setPath(st.get(o), path, mk("buf", orInvalid(valType(cur)), cStr(""))); ok {
			st.set(o, n)
		}
		return c
	}
	return mk("unread:"+v.Key(), tBytes)
}

// write adds bytes to a writer.
func (x *streams) write(in *Interp, st *State, w, v Val) {
	w = unwrap(st, w)
	if t, ok := w.(*Term); ok && strings.HasPrefix(t.Op, "wr:b64") {
		st.notes[t.key] = catOf(tBytes, st.notes[t.key], v)
		return
	}
	if !in.bufAppend(st, w, v) {
		st.emit("write", 0, w, v)
	}
}

// hook interprets the functions of the library that handle streams.
func (x *streams) hook(k *Call) ([]Outcome, bool) {
	in, st := k.In, k.St
	arg := func(i int) Val {
		if i < len(k.Args) {
			return st.resolve(k.Args[i])
		}
		return &Nil{tString}
	}
	okErr := &Nil{tError}
	typ := func(i int) types.Type { return k.Sig.Results().At(i).Type() }
	stream := func(op string, a ...Val) *Term {
		return nonNilTerm(st, mk(op, typ(0), a...))
	}
	fault := func(what string) *Term { return nonNilTerm(st, st.fresh("fault:"+what, tError)) }
	failing := func(what string, vals ...Val) Outcome {
		e := fault(what)
		return Outcome{Res: tuple(append(vals, e)...), Do: func(s *State) bool {
			s.emit("fault", k.Instr.Pos(), cStr(what))
			return true
		}}
	}
	recv := k.Recv
	if recv == nil && k.Sig.Recv() != nil {
		recv = arg(0)
	}
	switch k.Name {
	case "io.NopCloser", "bufio.NewReader", "bufio.NewReaderSize":
		return []Outcome{{Res: stream("rd:nop", arg(0))}}, true
	case "io.TeeReader":
		return []Outcome{{Res: stream("rd:tee", arg(0), arg(1))}}, true
	case "bytes.NewReader", "strings.NewReader":
		pt := typ(0)
		return []Outcome{{Res: &Ptr{Obj: st.alloc(mk("buf", under(pt).(*types.Pointer).Elem(), in.bytesTerm(st, arg(0))))}}}, true
	case "encoding/base64.NewEncoder":
		w := stream("wr:b64#"+x.id(st), arg(0), arg(1))
		st.notes[w.key] = cStr("")
		return []Outcome{{Res: w}}, true
	case "encoding/base64.NewDecoder":
		return []Outcome{{Res: stream("rd:b64", arg(0), arg(1))}}, true
	case "(*encoding/base64.Encoding).EncodeToString":
		return []Outcome{{Res: mk("b64enc", tString, arg(0), in.bytesTerm(st, arg(1)))}}, true
	case "(*encoding/base64.Encoding).DecodeString":
		return []Outcome{{Res: tuple(mk("b64dec", tBytes, arg(0), in.bytesTerm(st, arg(1))), okErr)}, failing("decoding", &Nil{tBytes})}, true
	case "(*bytes.Buffer).ReadFrom", "io.Copy":
		src, dst := arg(1), arg(0)
		bad := failing("copying", cInt(0))
		return []Outcome{{Res: tuple(st.fresh("n", typ(0)), okErr), Do: func(s *State) bool {
			x.write(in, s, dst, x.read(in, s, src))
			return true
		}}, bad}, true
	case "(*bytes.Buffer).WriteTo":
		src, dst := arg(0), arg(1)
		return []Outcome{{Res: tuple(st.fresh("n", typ(0)), okErr), Do: func(s *State) bool {
			x.write(in, s, dst, x.read(in, s, src))
			return true
		}}, failing("copying", cInt(0))}, true
	case "io.ReadAll", "io/ioutil.ReadAll":
		src := arg(0)
		s2 := st.clone()
		c := x.read(in, s2, src)
		return []Outcome{{Res: tuple(c, okErr), Do: func(s *State) bool {
			x.read(in, s, src)
			return true
		}}, failing("reading", &Nil{tBytes})}, true
	case "net/http.NewRequest", "net/http.NewRequestWithContext":
		off := 0
		if k.Name != "net/http.NewRequest" {
			off = 1
		}
		n := namedOf(typ(0))
		method, url, body := arg(off), arg(off+1), arg(off+2)
		o := structWith(st, n, "http.Request"+x.id(st)+".", func(f *types.Var) Val {
			switch f.Name() {
			case "Method":
				return method
			case "Body":
				return nonNilTerm(st, mk("rd:nop", f.Type(), body))
			case "URL":
				return nonNilTerm(st, mk("parsed", f.Type(), url))
			}
			return nil
		})
		return []Outcome{{Res: tuple(&Ptr{Obj: o}, okErr)}, failing("making the request", &Nil{typ(0)})}, true
	case "(*net/http.Client).Post", "net/http.Post", "(*net/http.Client).Do":
		var client, method, url, body Val
		switch k.Name {
		case "net/http.Post":
			client, method, url, body = sym("http.DefaultClient", tInt), cStr("POST"), arg(0), arg(2)
		case "(*net/http.Client).Post":
			client, method, url, body = arg(0), cStr("POST"), arg(1), arg(3)
		default:
			client, method, url, body = arg(0), st.fresh("method", tString), st.fresh("url", tString), &Nil{tBytes}
			if p, ok := arg(1).(*Ptr); ok {
				if s, ok := getPath(st.get(p.Obj), p.Path); ok {
					if s, ok := expand(s).(*Struct); ok {
						for i, f := range fieldsOf(s.T) {
							switch f.Name() {
							case "Method":
								method = s.F[i]
							case "Body":
								body = s.F[i]
							case "URL":
								if t, ok := st.resolve(s.F[i]).(*Term); ok && t.Op == "parsed" {
									url = t.A[0]
								}
							}
						}
					}
				}
			}
		}
		content := x.read(in, st, body)
		st.emit("post", k.Instr.Pos(), client, method, url, content)
		o := structWith(st, namedOf(typ(0)), "http.", func(f *types.Var) Val {
			if f.Name() == "Body" {
				return x.source(st, "answer", f.Type())
			}
			return nil
		})
		return []Outcome{{Res: tuple(&Ptr{Obj: o}, okErr)}, failing("the exchange", st.fresh("unusable", typ(0)))}, true
	}
	if recv != nil {
		r := unwrap(st, recv)
		if t, ok := r.(*Term); ok && (strings.HasPrefix(t.Op, "src:") || strings.HasPrefix(t.Op, "rd:") || strings.HasPrefix(t.Op, "wr:")) {
			m := k.Name[strings.LastIndex(k.Name, ".")+1:]
			switch m {
			case "Close":
				if strings.HasPrefix(t.Op, "wr:b64") {
					return []Outcome{{Res: okErr, Do: func(s *State) bool {
						x.write(in, s, t.A[1], mk("b64enc", tBytes, t.A[0], s.notes[t.key]))
						s.notes[t.key] = cStr("")
						return true
					}}, {Res: fault("finishing the encoding"), Do: func(s *State) bool {
						s.emit("fault", k.Instr.Pos(), cStr("finishing the encoding"))
						return true
					}}}, true
				}
				if strings.HasPrefix(t.Op, "src:") {
					st.notes[t.key] = mk("closed", tBytes)
				}
				return []Outcome{{Res: okErr}, {Res: nonNilTerm(st, st.fresh("close", tError))}}, true
			case "Write":
				data := in.bytesTerm(st, k.Args[len(k.Args)-1])
				return []Outcome{{Res: tuple(st.fresh("n", tInt), okErr), Do: func(s *State) bool {
					x.write(in, s, t, data)
					return true
				}}, failing("writing", cInt(0))}, true
			}
		}
		if t, ok := r.(*Term); ok && strings.HasPrefix(t.Op, "custom") && strings.HasSuffix(k.Name, ".Do") {
			return x.exchange(k, t), true
		}
	}
	if k.Callee != nil && x.c.P.InRepo(k.Callee) && x.aside(k) {
		return in.Results(k, k.Name+"#"+x.id(st), nil), true
	}
	if strings.HasPrefix(k.Name, "(*log.Logger).") || strings.HasPrefix(k.Name, "log.") || strings.HasPrefix(k.Name, "fmt.Print") {
		return in.Results(k, k.Name+"#"+x.id(st), nil), true
	}
	return nil, false
}

// exchange models a transport the user provides.
func (x *streams) exchange(k *Call, t *Term) []Outcome {
	st := k.St
	var url, body Val = st.fresh("url", tString), &Nil{tBytes}
	if p, ok := unwrap(st, k.Args[len(k.Args)-1]).(*Ptr); ok {
		if s, ok := getPath(st.get(p.Obj), p.Path); ok {
			if s, ok := expand(s).(*Struct); ok {
				for i, f := range fieldsOf(s.T) {
					switch f.Name() {
					case "URL":
						url = st.resolve(s.F[i])
					case "Body":
						body = s.F[i]
					}
				}
			}
		}
	}
	content := x.read(k.In, st, body)
	st.emit("post", k.Instr.Pos(), t, cStr("POST"), url, content)
	rt := k.Sig.Results().At(0).Type()
	o := structWith(st, namedOf(rt), "answer.", func(f *types.Var) Val {
		if f.Name() == "Body" {
			return x.source(st, "answer", f.Type())
		}
		return nil
	})
	e := nonNilTerm(st, st.fresh("fault:exchange", tError))
	return []Outcome{
		{Res: tuple(&Ptr{Obj: o}, &Nil{tError})},
		{Res: tuple(&Nil{rt}, e), Do: func(s *State) bool {
			s.emit("fault", k.Instr.Pos(), cStr("the exchange"))
			return true
		}},
	}
}

// aside tells whether a function of the library gets no stream that belongs to
// the exchange and delivers none, so that it cannot affect it.
func (x *streams) aside(k *Call) bool {
	for i := 0; i < k.Sig.Results().Len(); i++ {
		if t := k.Sig.Results().At(i).Type(); !isError(t) && !isBool(t) && !isInteger(t) {
			return false
		}
	}
	for _, a := range k.Args {
		switch v := unwrap(k.St, a).(type) {
		case *Term:
			if strings.HasPrefix(v.Op, "src:") || strings.HasPrefix(v.Op, "rd:") || strings.HasPrefix(v.Op, "wr:") {
				return false
			}
		case *Ptr:
			o, ok := getPath(k.St.get(v.Obj), v.Path)
			if t := valType(o); !ok || t == nil || carriesStream(t) {
				return false
			}
		case *Closure, *Slice:
			if _, isS := v.(*Slice); isS {
				continue
			}
			return false
		}
	}
	return true
}

// carriesStream tells whether a type belongs to the exchange.
func carriesStream(t types.Type) bool {
	s := structKey(t)
	return strings.HasPrefix(s, "bytes.") || strings.HasPrefix(s, "strings.") || strings.HasPrefix(s, "bufio.") || strings.HasPrefix(s, "net/http.") || strings.Contains(s, "transport.Re")
}

func (x *streams) interp() *Interp {
	in := NewInterp(x.c.P)
	in.MaxFork = 1
	in.ConvFork = true
	in.Hook = x.hook
	return in
}

// do runs the method Do of a transport value.
func (x *streams) do(st *State, t Val, static types.Type) (ps []Path, url, body Val) {
	p := x.c.P
	rq := p.TypeNamed("transport", "Request")
	var o int
	o = structWith(st, rq, "request.", func(f *types.Var) Val {
		switch f.Name() {
		case "URL":
			url = sym("request.URL", f.Type())
			return url
		case "Body":
			b := x.source(st, "request", f.Type())
			body = st.notes[b.key]
			return b
		}
		return nil
	})
	v := st.resolve(t)
	dyn := static
	if i, ok := v.(*Iface); ok {
		dyn, v = i.Dyn, st.resolve(i.V)
	}
	fn := p.MethodOpt(dyn, "Do")
	if fn == nil {
		return nil, nil, nil
	}
	in := x.interp()
	ps = in.Run(st, fn, v, &Ptr{Obj: o})
	x.c.use(in)
	return
}

// field reads a field of the object a result points to.
func field(st *State, v Val, name string) Val {
	p, ok := unwrap(st, v).(*Ptr)
	if !ok {
		return nil
	}
	s, ok := getPath(st.get(p.Obj), p.Path)
	if !ok {
		return nil
	}
	w, ok := expand(s).(*Struct)
	if !ok {
		return nil
	}
	for i, f := range fieldsOf(w.T) {
		if f.Name() == name {
			return w.F[i]
		}
	}
	return nil
}

// stdBase64 tells whether v is the standard alphabet of encoding/base64.
func stdBase64(p *Prog, v Val) bool {
	t, ok := v.(*Term)
	return ok && strings.Contains(t.key, "encoding/base64.StdEncoding")
}

func checkP13(c *Ctx) {
	c.Rule("posted", "what a PIN/TAN dialog's transport posts is the base64 encoding (standard alphabet, finished before sending) of exactly the bytes of the request, once, with POST, to the address of the request", 2)
	c.Rule("answer", "what it hands back is the base64 decoding, with the same alphabet, of exactly the body of the answer, still readable", 2)
	c.Rule("failed", "when reading or encoding the request, the exchange or reading the answer fails, an error is returned, and nothing is posted unless the whole request was encoded", 2)
	c.Rule("symmetric", "every transport of the library posts the request bytes plain or base64 encoded once and decodes a successful answer likewise", 2)
	c.Rule("response", "the response made from an answer carries exactly the bytes of the answer and finds its segments in them", 1)
	c.Rule("tls", "no code of the module disables or replaces the verification of TLS certificates", 1)
	c.Rule("address", "no address in the module is plain http, and every address in the bank directory is an https address", 1)
	c.destination()
	p := c.P
	x := &streams{c: c}
	tt := p.TypeNamed("transport", "Transport")

	for _, own := range []bool{false, true} {
		lab := "default transport"
		if own {
			lab = "transport of the user"
		}
		st := p.NewState()
		cfg := p.TypeNamed("dialog", "Config")
		o := structWith(st, cfg, "config.", func(f *types.Var) Val {
			if namedOf(f.Type()) == tt {
				if own {
					return nonNilTerm(st, mk("custom", f.Type()))
				}
				return &Nil{f.Type()}
			}
			return nil
		})
		in := x.interp()
		fn := p.Func("dialog", "NewPinTanDialog")
		made := in.Run(st, fn, st.get(o))
		c.use(in)
		n := 0
		for _, q := range made {
			if q.Kind != "return" {
				continue
			}
			q.St.frames = nil
			v := transportOf(p, q.St, q.Res[0], tt, 0)
			if v == nil {
				continue
			}
			n++
			ps, url, body := x.do(q.St, v, tt)
			c.exchangeRules(lab, ps, url, body, true)
		}
		if n == 0 {
			c.Undecided("posted", lab, "the transport of a new dialog was not found")
		}
	}
	// the transports of the library by themselves
	for _, fn := range p.constructors("transport/https") {
		rs := fn.Signature.Results()
		if rs.Len() != 1 || p.MethodOpt(rs.At(0).Type(), "Do") == nil && namedOf(rs.At(0).Type()) != tt {
			continue
		}
		if strings.Contains(fn.Name(), "Mock") {
			continue
		}
		st := p.NewState()
		in := x.interp()
		for _, q := range in.Run(st, fn, symArgs(st, fn)...) {
			if q.Kind != "return" {
				continue
			}
			q.St.frames = nil
			ps, url, body := x.do(q.St, q.Res[0], rs.At(0).Type())
			c.exchangeRules(fn.Name(), ps, url, body, false)
		}
		c.use(in)
	}
	x.response()
	c.tlsRules()
	c.addressRules()
}

// transportOf finds the transport a dialog uses.
func transportOf(p *Prog, st *State, v Val, tt *types.Named, depth int) Val {
	q, ok := unwrap(st, v).(*Ptr)
	if !ok || depth > 3 {
		return nil
	}
	s, ok := getPath(st.get(q.Obj), q.Path)
	if !ok {
		return nil
	}
	w, ok := expand(s).(*Struct)
	if !ok {
		return nil
	}
	for i, f := range fieldsOf(w.T) {
		if namedOf(f.Type()) == tt {
			if r := st.resolve(w.F[i]); !isNil(r) {
				return r
			}
		}
	}
	for i, f := range fieldsOf(w.T) {
		if f.Embedded() {
			if r := transportOf(p, st, w.F[i], tt, depth+1); r != nil {
				return r
			}
		}
	}
	return nil
}

// exchangeRules examines the paths of one exchange.
func (c *Ctx) exchangeRules(lab string, ps []Path, url, body Val, coded bool) {
	p := c.P
	good, where := 0, "-"
	posted, answered, failed := "", "", ""
	set := func(s *string, f string, a ...any) {
		if *s == "" {
			*s = fmt.Sprintf(f, a...)
		}
	}
	x := &streams{c: c}
	for _, q := range ps {
		var posts []*Event
		fault, bad := "", ""
		for _, e := range q.St.Events() {
			e := e
			switch e.Kind {
			case "post":
				posts = append(posts, e)
				if e.Pos.IsValid() {
					where = p.Pos(e.Pos)
				}
				if fault != "" && !strings.HasPrefix(fault, "closing") {
					bad = "a request is posted although " + fault + " failed"
				}
			case "fault":
				if s, ok := asStr(e.Args[0]); ok {
					fault = s
				}
			}
		}
		if q.Kind == "panic" && !strings.HasPrefix(q.Where, "panic at") {
			set(&posted, "the exchange panics: %s", q.Where)
			continue
		}
		if q.Kind == "trunc" {
			c.Undecided("posted", lab, "a path was not followed to its end")
			continue
		}
		if fault != "" {
			if bad != "" {
				set(&failed, "%s", bad)
			}
			if q.Kind == "return" && q.success() {
				set(&failed, "no error although %s failed", fault)
			}
			continue
		}
		if q.Kind != "return" || !q.success() {
			continue
		}
		good++
		if len(posts) != 1 {
			set(&posted, "%d requests are posted", len(posts))
			continue
		}
		e := posts[0]
		if m, ok := asStr(e.Args[1]); !ok || m != "POST" {
			set(&posted, "the request is sent with %s", e.Args[1].Key())
		}
		if q.St.resolve(e.Args[2]).Key() != url.Key() {
			set(&posted, "the request is posted to %s instead of the address of the request", e.Args[2].Key())
		}
		in := NewInterp(p)
		sent := e.Args[3]
		if t, ok := sent.(*Term); ok && strings.HasPrefix(t.Op, "mut") && strings.HasSuffix(t.Op, "base64.Encoding).Encode") && len(t.A) == 3 && strings.Contains(t.A[1].Key(), "EncodedLen") {
			sent = mk("b64enc", tBytes, t.A[0], t.A[2]) // encoded into a slice of the right size
		}
		enc := Val(nil)
		if t, ok := sent.(*Term); ok && t.Op == "b64enc" {
			enc, sent = t.A[0], t.A[1]
		}
		if sent.Key() != body.Key() {
			set(&posted, "the posted body is %s", e.Args[3].Key())
		}
		if coded && (enc == nil || !stdBase64(p, enc)) {
			set(&posted, "the posted body is not base64 in the standard alphabet: %s", e.Args[3].Key())
		}
		rb := field(q.St, q.Res[0], "Body")
		if rb == nil {
			set(&answered, "the body of the response is not known")
			continue
		}
		got := x.read(in, q.St, rb)
		ok200 := true
		q.St.conds(func(t *Term, b bool) {
			if mentionsOp(t, "http.StatusCode") {
				v := t.Op == "==" && b || t.Op == "!=" && !b
				ok200 = ok200 && v
			}
		})
		dec := Val(nil)
		if t, ok := got.(*Term); ok && t.Op == "b64dec" {
			dec, got = t.A[0], t.A[1]
		}
		if got.Key() != "content:answer" {
			set(&answered, "what is handed back is %s", got.Key())
		}
		if ok200 && (enc == nil) != (dec == nil) {
			set(&answered, "the request is encoded in another way than the answer is decoded")
		}
		if enc != nil && dec != nil && enc.Key() != dec.Key() {
			set(&answered, "the answer is decoded with another alphabet")
		}
		if coded && dec == nil {
			set(&answered, "the answer is handed back without decoding")
		}
	}
	if good == 0 {
		set(&posted, "no exchange succeeds")
	}
	if coded {
		c.Check("posted", lab, posted == "", where, "%s", posted)
		c.Check("answer", lab, answered == "", where, "%s", answered)
	} else {
		c.Check("symmetric", lab, posted == "" && answered == "", where, "%s", posted+answered)
	}
	c.Check("failed", lab, failed == "", where, "%s", failed)
}

// response examines how the answer becomes a response.
func (x *streams) response() {
	c, p := x.c, x.c.P
	fn := p.Func("transport", "ReadResponse")
	st := p.NewState()
	in := x.interp()
	in.Hook = func(k *Call) ([]Outcome, bool) {
		if k.Callee != nil && pkgRel(k.Callee) == "message" && k.Sig.Results().Len() == 1 && k.Sig.Recv() == nil {
			t := nonNilTerm(k.St, k.St.fresh("extractor", k.Sig.Results().At(0).Type()))
			k.St.emit("extractor", k.Instr.Pos(), t, k.In.bytesTerm(k.St, k.Args[0]))
			return []Outcome{{Res: t}}, true
		}
		if k.Callee != nil && pkgRel(k.Callee) == "message" {
			return k.In.Results(k, k.Name, deepAll(k.In, k.St, k.Args)), true
		}
		return x.hook(k)
	}
	src := x.source(st, "answer", fn.Params[0].Type())
	args := []Val{src}
	for _, prm := range fn.Params[1:] {
		args = append(args, sym(prm.Name(), prm.Type()))
	}
	good, bad := 0, ""
	for _, q := range in.Run(st, fn, args...) {
		fault := false
		exts := map[string]Val{}
		for _, e := range q.St.Events() {
			switch e.Kind {
			case "fault":
				fault = true
			case "extractor":
				exts[e.Args[0].Key()] = e.Args[1]
			}
		}
		if q.Kind != "return" || !q.success() {
			continue
		}
		if fault {
			bad = "no error although reading the answer failed"
			continue
		}
		good++
		n := 0
		for _, name := range []string{"MarshaledResponse", "Body"} {
			v := field(q.St, q.Res[0], name)
			if v == nil {
				continue
			}
			n++
			var k string
			if isByteSlice(typeOr(v)) {
				k = in.bytesTerm(q.St, v).Key()
			} else {
				k = x.read(in, q.St, v).Key()
			}
			if k != "content:answer" {
				bad = name + " of the response is " + k
			}
		}
		if n != 2 {
			bad = "the response does not carry the bytes of the answer"
		}
		ex := field(q.St, q.Res[0], "SegmentExtractor")
		if ex == nil {
			bad = "the response has no segment extractor"
		} else if src, ok := exts[q.St.resolve(ex).Key()]; !ok || src.Key() != "content:answer" {
			bad = "the segments of the response are not looked up in the bytes of the answer"
		}
	}
	c.use(in)
	c.Check("response", fn.Name(), good > 0 && bad == "", p.Pos(fn.Pos()), "%s", orElse(bad, "no response is ever made"))
}

// tlsRules looks for code that weakens the verification of certificates.
func (c *Ctx) tlsRules() {
	p := c.P
	n, bad := 0, 0
	for _, fn := range p.AllFuncs() {
		if !p.InRepo(fn) {
			continue
		}
		n++
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				key := structKey(fa.X.Type())
				f := fieldNameOf(fa)
				why := ""
				switch {
				case strings.HasSuffix(key, "crypto/tls.Config") && f == "InsecureSkipVerify":
					if k, ok := s.Val.(*ssa.Const); !ok || k.Value == nil || k.Value.Kind() != constant.Bool || constant.BoolVal(k.Value) {
						why = "the verification of certificates is switched off"
					}
				case strings.HasSuffix(key, "net/http.Transport") && (f == "DialTLS" || f == "DialTLSContext"):
					why = "TLS connections are made by code of its own (" + f + ")"
				}
				if why != "" {
					bad++
					c.Check("tls", fn.RelString(nil)+" "+f, false, p.Pos(s.Pos()), "%s", why)
				}
			}
		}
	}
	c.Check("tls", "all functions", bad == 0 && n > 100, "-", "%d functions examined, %d weaken the verification", n, bad)
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	t := fa.X.Type()
	if p, ok := under(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := under(t).(*types.Struct); ok {
		return s.Field(fa.Field).Name()
	}
	return ""
}

// addressRules examines every constant text of the module.
func (c *Ctx) addressRules() {
	p := c.P
	n, https := 0, 0
	for _, k := range p.constants() {
		if k.Value.Kind() != constant.String {
			continue
		}
		n++
		s := strings.ToLower(strings.TrimSpace(constant.StringVal(k.Value)))
		if strings.HasPrefix(s, "https://") {
			https++
		}
		if strings.HasPrefix(s, "http://") || s == "http" {
			c.Check("address", constant.StringVal(k.Value), false, p.Pos(k.Pos), "plain http address")
		}
	}
	c.Check("address", "constant texts", n > 1000 && https > 100, "-", "%d texts, %d https addresses", n, https)
	es := c.directory(p.TypeNamed("bankinfo", "BankInfo"))
	bad, where := "", "-"
	m := 0
	for _, e := range es {
		u, ok := e.text["URL"]
		if !ok || u == "" {
			continue
		}
		m++
		if !strings.HasPrefix(strings.ToLower(u), "https://") {
			bad, where = u, p.Pos(e.pos)
		}
	}
	c.Check("address", "bank directory", m > 100 && bad == "", where, "%d addresses; %q is no https address", m, bad)
}

func fieldsOf(t types.Type) (out []*types.Var) {
	if s, ok := under(t).(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, s.Field(i))
		}
	}
	return
}

// destination checks where a dialog sends its messages.
func (c *Ctx) destination() {
	c.Rule("destination", "every message of a PIN/TAN dialog, of every operation, is handed to the transport with the configured address", 8)
	rt := c.P.TypeNamed("transport", "Request")
	for _, v := range dialogVersions {
		for _, o := range dialogOps {
			sc := scenario{label: o.name + " " + v, op: o.name, version: v, acks: okAcks, present: 0}
			d, st := c.realDlg(sc)
			sts, _ := d.step([]*State{st}, "SetPin", func(s *State) []Val { return []Val{sym("pin:1", tString)} })
			_, ps := d.step(sts, o.name, func(s *State) []Val {
				if !o.order {
					return nil
				}
				o1 := sym("order:1", c.P.TypeNamed("segment", "ClientSegment"))
				nonNilTerm(s, o1)
				return []Val{d.order(s, o1)}
			})
			n := 0
			seen := map[string]bool{}
			for _, p := range ps {
				for _, e := range p.St.Events() {
					if e.Kind != "send" {
						continue
					}
					n++
					url := "?"
					walk(e.Args[0], func(x Val) bool {
						s, ok := x.(*Struct)
						if !ok || namedOf(s.T) != rt {
							return true
						}
						for i, f := range structFields(rt) {
							if f.Name() == "URL" {
								url = keyOf(s.F[i])
							}
						}
						return false
					})
					where := c.P.Pos(e.Pos)
					if seen[where+url] {
						continue
					}
					seen[where+url] = true
					c.Check("destination", sc.label+" at "+where, url == "config.HBCIURL", where, "the address is %s", cut(url))
				}
			}
			if n == 0 {
				c.Check("destination", sc.label, false, "", "no message is sent (%d paths)", len(ps))
			}
		}
	}
}
