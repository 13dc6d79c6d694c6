package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P31"] = checkP31 }

// cliFlag is one flag of the tool.
type cliFlag struct {
	name string
	cmd  int // the command, by object
	all  bool
	obj  int // the variable it sets
	def  Val
	pos  string
}

// cliTool is what the initialisers of the tool set up.
type cliTool struct {
	c        *Ctx
	pkg      *ssa.Package
	flags    []cliFlag
	children map[int][]int
	bound    map[string]string // setting -> flag
	start    []*ssa.Function
	final    *State
	why      string
}

func (c *Ctx) cliSetup(rel string) *cliTool {
	t := &cliTool{c: c, pkg: c.P.Pkg(rel), children: map[int][]int{}, bound: map[string]string{}}
	var inits []*ssa.Function
	for _, f := range c.P.AllFuncs() {
		if f.Pkg == t.pkg && f.Parent() == nil && strings.HasPrefix(f.Name(), "init#") {
			inits = append(inits, f)
		}
	}
	sort.Slice(inits, func(i, j int) bool { return inits[i].Pos() < inits[j].Pos() })
	st := c.P.NewState()
	for _, f := range inits {
		var next *State
		ps := c.cliRunFrom(t.pkg, f, nil, func(ssa.Instruction, string) {}, st, func(k *Call) ([]Outcome, bool) {
			name := k.Name
			str := func(i int) string {
				if i < len(k.Args) {
					if s, ok := asStr(k.St.resolve(k.Args[i])); ok {
						return s
					}
				}
				return "?"
			}
			obj := func(i int) int {
				if i < len(k.Args) {
					if p, ok := k.St.resolve(k.Args[i]).(*Ptr); ok && len(p.Path) == 0 {
						return p.Obj
					}
				}
				return 0
			}
			elems := func(i int) (l []Val) {
				if s, ok := k.St.resolve(k.Args[i]).(*Slice); ok {
					if a, ok := k.St.get(s.Obj).(*Struct); ok {
						l = a.F[s.Lo:s.Hi]
					}
				}
				return
			}
			none := []Outcome{{Res: &Tuple{}}}
			switch {
			case strings.HasSuffix(name, "cobra.Command).Flags"), strings.HasSuffix(name, "cobra.Command).PersistentFlags"):
				return []Outcome{{Res: mk("flagset", k.Sig.Results().At(0).Type(), cInt(int64(obj(0))), cBool(strings.HasSuffix(name, "PersistentFlags")))}}, true
			case strings.Contains(name, "pflag.FlagSet).") && (strings.HasSuffix(name, "Var") || strings.HasSuffix(name, "VarP")):
				fs, ok := k.St.resolve(k.Args[0]).(*Term)
				if !ok || fs.Op != "flagset" {
					return nil, false
				}
				def := 3
				if strings.HasSuffix(name, "VarP") {
					def = 4
				}
				o, _ := asInt(fs.A[0])
				all, _ := k.St.truth(fs.A[1])
				t.flags = append(t.flags, cliFlag{str(2), o, all, obj(1), k.St.resolve(k.Args[def]), c.P.Pos(k.Instr.Pos())})
				return none, true
			case strings.Contains(name, "pflag.FlagSet).Lookup"):
				return []Outcome{{Res: mk("flag", k.Sig.Results().At(0).Type(), cStr(str(1)))}}, true
			case strings.HasSuffix(name, "viper.BindPFlag"):
				if f, ok := k.St.resolve(k.Args[1]).(*Term); ok && f.Op == "flag" {
					n, _ := asStr(f.A[0])
					t.bound[str(0)] = n
				}
				return []Outcome{{Res: &Nil{tError}}}, true
			case strings.HasSuffix(name, "cobra.Command).AddCommand"):
				for _, e := range elems(1) {
					if p, ok := k.St.resolve(e).(*Ptr); ok {
						t.children[obj(0)] = append(t.children[obj(0)], p.Obj)
					}
				}
				return none, true
			case strings.HasSuffix(name, "cobra.OnInitialize"):
				for _, e := range elems(0) {
					if f, ok := k.St.resolve(e).(*Closure); ok {
						t.start = append(t.start, f.Fn)
					}
				}
				return none, true
			}
			return nil, false
		})
		for _, q := range ps {
			if q.Kind == "return" && next == nil {
				next = q.St
			} else {
				t.why = "the initialiser " + f.Name() + " has more than one outcome"
			}
		}
		if next == nil {
			t.why = "the initialiser " + f.Name() + " does not end"
			return t
		}
		st = next
	}
	t.final = st
	return t
}

// command is a command of the tool that the user can give.
type command struct {
	obj  int
	name string
	run  *ssa.Function
}

// field reads a field of a command.
func (t *cliTool) field(obj int, name string) Val {
	s, ok := expand(t.final.get(obj)).(*Struct)
	if !ok {
		return nil
	}
	n := namedOf(s.T)
	if n == nil {
		return nil
	}
	for i, f := range structFields(n) {
		if f.Name() == name {
			return t.final.resolve(s.F[i])
		}
	}
	return nil
}

func (t *cliTool) commands(root int) (l []command) {
	for _, o := range t.children[root] {
		use, _ := asStr(t.field(o, "Use"))
		k := command{obj: o, name: strings.SplitN(use+" ", " ", 2)[0]}
		for _, f := range []string{"Run", "RunE"} {
			if cl, ok := t.field(o, f).(*Closure); ok {
				k.run = cl.Fn
			}
		}
		l = append(l, k)
		l = append(l, t.commands(o)...)
	}
	return
}

// given prepares the state in which a command runs: the flags have the values
// the user gave them.
func (t *cliTool) given(cmd, root int) *State {
	st := t.final.clone()
	for _, f := range t.flags {
		if f.obj == 0 || f.cmd != cmd && !(f.cmd == root && f.all) {
			continue
		}
		st.set(f.obj, sym("flag:"+f.name, valType(f.def)))
	}
	return st
}

// steps executes functions of the tool one after the other.
func (t *cliTool) steps(st *State, fns ...*ssa.Function) (done []*State) {
	done = []*State{st}
	for _, f := range fns {
		var next []*State
		for _, s := range done {
			for _, q := range t.c.cliRunFrom(t.pkg, f, nil, func(ssa.Instruction, string) {}, s, t.outside) {
				if q.Kind == "return" {
					q.St.frames = nil
					next = append(next, q.St)
				}
			}
		}
		done = next
	}
	return
}

// outside models the surroundings of the tool.
func (t *cliTool) outside(k *Call) ([]Outcome, bool) {
	switch {
	case strings.Contains(k.Name, "viper.GetString") && len(k.Args) == 1:
		if s, ok := asStr(k.St.resolve(k.Args[0])); ok {
			k.St.emit("setting", k.Instr.Pos(), cStr(s))
			if f := t.bound[s]; f != "" {
				return []Outcome{{Res: sym("setting:"+f, k.Sig.Results().At(0).Type())}}, true
			}
			return []Outcome{{Res: sym("unbound:"+s, k.Sig.Results().At(0).Type())}}, true
		}
	case strings.Contains(k.Name, "viper.") && k.Callee != nil:
		k.St.emit("viper", k.Instr.Pos(), append([]Val{cStr(k.Callee.Name())}, deepAll(k.In, k.St, k.Args)...)...)
	case k.Name == "time.Now":
		return []Outcome{{Res: sym("now", k.Sig.Results().At(0).Type())}}, true
	case k.Name == "(time.Time).AddDate":
		return []Outcome{{Res: mk("days", k.Sig.Results().At(0).Type(), deepAll(k.In, k.St, k.Args)...)}}, true
	case strings.HasSuffix(k.Name, "iban.NewGerman"):
		a := deepAll(k.In, k.St, k.Args)
		return []Outcome{{Res: tuple(mk("german", k.Sig.Results().At(0).Type(), a...), &Nil{tError})}}, true
	}
	return nil, false
}

// query is one order the tool gives to the client.
type cliQuery struct {
	st   *State
	name string
	args []Val
}

func queries(st *State, pkg string) (l []cliQuery) {
	for _, e := range st.Events() {
		if e.Kind == "query" {
			n, _ := asStr(e.Args[0])
			if strings.HasPrefix(n, pkg) {
				l = append(l, cliQuery{st, n, e.Args[1:]})
			}
		}
	}
	return
}

func checkP31(c *Ctx) {
	c.Rule("commands", "the commands accounts, balances and transactions are part of the command the tool executes, and each gives the client exactly one order of its kind on every path that succeeds", 3)
	c.Rule("settings", "the client is made from the URL and the PIN given as flags and from the user id and the bank id, each given as flag, environment variable or in the configuration file; every order goes to that client", 5)
	c.Rule("config", "the configuration file is read, the one named by the flag if one is named, and the environment is consulted before the settings are used", 3)
	c.Rule("account", "the order is about the account named by --accountID, and about the account of the user id only if none is named; the bank is the configured one, and IBAN and BIC belong to that account and that bank", 8)
	c.Rule("days", "transactions are asked from daysToFetch days ago until now; the number is ten unless given", 3)
	c.Rule("kind", "with --disableSepa the orders for national accounts are given, without it those for SEPA accounts", 4)
	p := c.P
	t := c.cliSetup("cmd/banking")
	if t.why != "" {
		c.Undecided("commands", "setup", t.why)
		return
	}
	// the command that main executes
	root := 0
	if m := t.pkg.Func("main"); m != nil {
		c.cliRunFrom(t.pkg, m, nil, func(ssa.Instruction, string) {}, t.final.clone(), func(k *Call) ([]Outcome, bool) {
			if strings.Contains(k.Name, "cobra.Command).Execute") {
				if pt, ok := k.St.resolve(k.Args[0]).(*Ptr); ok {
					root = pt.Obj
				}
			}
			return nil, false
		})
	}
	cmds := t.commands(root)
	want := map[string][2]string{
		"accounts":     {"Accounts", "Accounts"},
		"balances":     {"AccountBalances", "SepaAccountBalances"},
		"transactions": {"AccountTransactions", "SepaAccountTransactions"},
	}
	var names []string
	for n := range want {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		var cmd *command
		for i := range cmds {
			if cmds[i].name == n && cmds[i].run != nil {
				cmd = &cmds[i]
			}
		}
		if cmd == nil {
			c.Check("commands", n, false, "cmd/banking", "there is no command %s", n)
			continue
		}
		where := p.Pos(cmd.run.Pos())
		ends := t.steps(t.given(cmd.obj, root), append(append([]*ssa.Function{}, t.start...), cmd.run)...)
		bad := ""
		if len(ends) == 0 {
			bad = "no path succeeds"
		}
		type verdict struct {
			ok  bool
			why string
			n   int
		}
		v := map[string]*verdict{}
		put := func(rule, con string, ok bool, why string, a ...any) {
			k := rule + "|" + con
			if v[k] == nil {
				v[k] = &verdict{ok: true}
			}
			v[k].n++
			if !ok && v[k].ok {
				v[k].ok, v[k].why = false, fmt.Sprintf(why, a...)
			}
		}
		for _, st := range ends {
			t.judgeSetup(n, st, put)
			qs := queries(st, "(*client.Client).")
			if len(qs) != 1 {
				bad = fmt.Sprintf("%d orders are given", len(qs))
				continue
			}
			q := qs[0]
			m := strings.TrimPrefix(q.name, "(*client.Client).")
			if m != want[n][0] && m != want[n][1] {
				bad = "the order is " + m
				continue
			}
			put("settings", n+" client", mentionsOp(q.args[0], "got:client.New"), "the order is not given to the client made from the settings but to %s", q.args[0].Key())
			if want[n][0] != want[n][1] {
				off, known := st.truth(sym("flag:disableSepa", tBool))
				put("kind", n+" "+m, known && off == (m == want[n][0]), "%s is called whatever --disableSepa says, or against it", m)
			}
			t.judgeOrder(n, m, q, put)
		}
		c.Check("commands", n, bad == "", where, "%s", bad)
		var keys []string
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			rc := strings.SplitN(k, "|", 2)
			c.Check(rc[0], rc[1], v[k].ok, where, "%s", v[k].why)
		}
	}
	for _, f := range t.flags {
		if f.name == "daysToFetch" {
			d, ok := asInt(f.def)
			c.Check("days", "default", ok && d == 10, f.pos, "the number of days is %s unless given", keyOf(f.def))
		}
		if f.name == "accountID" {
			s, ok := asStr(f.def)
			c.Check("account", "default of "+f.pos, ok && s == "", f.pos, "the account is %s unless given", keyOf(f.def))
		}
		if f.name == "disableSepa" {
			b, ok := t.final.truth(f.def)
			c.Check("kind", "default of "+f.pos, ok && !b, f.pos, "SEPA is disabled unless asked for")
		}
	}
}

// judgeSetup checks how the client is made on one path.
func (t *cliTool) judgeSetup(n string, st *State, put func(string, string, bool, string, ...any)) {
	qs := queries(st, "client.New")
	if len(qs) != 1 || len(qs[0].args) != 1 {
		put("settings", n+" made", false, "%d clients are made", len(qs))
		return
	}
	put("settings", n+" made", true, "")
	cfg, ok := expand(qs[0].args[0]).(*Struct)
	if !ok {
		put("settings", n+" made", false, "the configuration is %s", qs[0].args[0].Key())
		return
	}
	from := map[string]string{"URL": "flag:hbci.url", "AccountID": "setting:userID", "BankID": "setting:blz", "PIN": "flag:pin"}
	for i, f := range structFields(t.c.P.TypeNamed("client", "Config")) {
		if w, ok := from[f.Name()]; ok {
			put("settings", n+" "+f.Name(), keyOf(cfg.F[i]) == w, "%s is %s, not %s", f.Name(), keyOf(cfg.F[i]), w)
		}
	}
	// the order of the steps
	read, env, early, file := false, false, false, ""
	for _, e := range st.Events() {
		switch e.Kind {
		case "setting":
			if !read || !env {
				early = true
			}
		case "viper":
			m, _ := asStr(e.Args[0])
			switch m {
			case "ReadInConfig":
				read = true
			case "AutomaticEnv":
				env = true
			case "SetConfigFile":
				file = keyOf(e.Args[1])
			case "AddConfigPath", "SetConfigName":
				if file == "" {
					file = "default"
				}
			}
		}
	}
	put("config", n+" order", !early, "the settings are used before the configuration file and the environment are consulted")
	none, known := st.truth(mk("==", tBool, sym("flag:config", tString), cStr("")))
	w := "flag:config"
	if known && none {
		w = "default"
	}
	put("config", n+" file", known && file == w, "the configuration is read from %s, not from %s", orElse(file, "nowhere"), w)
}

// judgeOrder checks what is asked on one path.
func (t *cliTool) judgeOrder(n, m string, q cliQuery, put func(string, string, bool, string, ...any)) {
	named := sym("flag:accountID", tString)
	acc := named.Key()
	bank := "setting:blz"
	if n != "accounts" {
		none, known := q.st.truth(mk("==", tBool, named, cStr("")))
		if !known {
			put("account", n+" "+m, false, "whether an account is named makes no difference")
			return
		}
		if none {
			acc = "setting:userID"
		}
	}
	for _, a := range q.args[1:] {
		ty := ""
		if nt := namedOf(valType(a)); nt != nil {
			ty = nt.Obj().Name()
		}
		s, isS := expand(a).(*Struct)
		part := func(name string) string {
			if isS {
				for i, f := range structFields(namedOf(valType(a))) {
					if f.Name() == name {
						return keyOf(s.F[i])
					}
				}
			}
			return "?"
		}
		switch ty {
		case "AccountConnection":
			put("account", n+" "+m+" account", part("AccountID") == acc, "the account is %s, not %s", part("AccountID"), acc)
			put("account", n+" "+m+" bank", part("BankID") == bank && part("CountryCode") == "280", "the bank is %s in %s", part("BankID"), part("CountryCode"))
		case "InternationalAccountConnection":
			put("account", n+" "+m+" account", part("AccountID") == acc, "the account is %s, not %s", part("AccountID"), acc)
			put("account", n+" "+m+" bank", part("BankID") == "{280;"+bank+"}", "the bank is %s", part("BankID"))
			ib := part("IBAN")
			put("account", n+" "+m+" IBAN", strings.HasPrefix(ib, "german(") && ib == "german("+bank+","+acc+")" || ib == `""`, "the IBAN is %s", ib)
			bic := part("BIC")
			put("account", n+" "+m+" BIC", bic == `""` || bic == ".BIC(bankinfo.FindByBankID("+bank+"))", "the BIC is %s", bic)
		case "Timeframe":
			d := "?"
			if isS {
				d = keyOf(s.F[0])
				if x, ok := findDays(s.F[0]); ok {
					k, f := keyOf(x), "flag:daysToFetch"
					if k == "neg("+f+")" || k == "*(-1,"+f+")" || k == "*("+f+",-1)" || k == "-(0,"+f+")" {
						d = ""
					}
				}
			}
			put("days", n+" "+m+" start", d == "", "the first day is %s", d)
			end := "?"
			if isS {
				end = keyOf(s.F[1])
			}
			put("days", n+" "+m+" end", end == "{{0;0;nil}}" || end == "domain.NewShortDate(now)", "the last day is %s", end)
		}
		if b := under(valType(a)); types.Identical(b, tString) && ty == "" {
			put("account", n+" "+m+" from the start", keyOf(a) == `""`, "the order continues at %s", keyOf(a))
		}
		if b := under(valType(a)); types.Identical(b, tBool) && n == "transactions" {
			all, known := q.st.truth(a)
			put("account", n+" "+m+" only this account", known && !all, "the order asks for all accounts")
		}
	}
}

// findDays takes the number of days off a date that lies that many days before
// now.
func findDays(v Val) (Val, bool) {
	t, ok := v.(*Term)
	if !ok || t.Op != "domain.NewShortDate" || len(t.A) != 1 {
		return nil, false
	}
	d, ok := t.A[0].(*Term)
	if !ok || d.Op != "days" || len(d.A) != 4 || keyOf(d.A[0]) != "now" {
		return nil, false
	}
	if keyOf(d.A[1]) != "0" || keyOf(d.A[2]) != "0" {
		return nil, false
	}
	return d.A[3], true
}
