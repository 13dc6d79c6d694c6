package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

var checks = map[string]func(*Ctx){}

func main() {
	t := time.Now()
	debug.SetGCPercent(400)
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	root := "/repo"
	if r := os.Getenv("VERIF_REPO"); r != "" {
		root = r
	}
	if d := os.Getenv("VERIF_DIR"); d != "" {
		verifDir = d
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: checker ID [tier] | dump PKG FUNC | all")
		os.Exit(2)
	}
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 && os.Args[1] != "dump" && os.Args[1] != "dumpm" {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	var p *Prog
	var lerr string
	func() {
		defer func() {
			if r := recover(); r != nil {
				lerr = fmt.Sprint(r)
				if fe, ok := r.(fatalErr); ok {
					lerr = fe.msg
				}
			}
		}()
		p = load(root)
		p.InitGlobals(map[string]bool{modPath + "/bankinfo": true})
	}()
	if lerr != "" {
		fmt.Println("cannot load the repository:", lerr)
		fmt.Printf("VIOLATION property=%s replay=%s\n", os.Args[1], "-")
		os.Exit(1)
	}
	switch os.Args[1] {
	case "dump", "dumpm":
		dump(p, os.Args)
		return
	case "all":
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		bad := 0
		for _, id := range ids {
			bad += runCheck(p, id, tier, time.Now())
		}
		fmt.Println(time.Since(t), "failing:", bad)
		if bad > 0 {
			os.Exit(1)
		}
		return
	}
	rc := runCheck(p, os.Args[1], tier, t)
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func dump(p *Prog, a []string) {
	in := NewInterp(p)
	fn := func() (f interface{}) { return nil }
	_ = fn
	f := p.Pkg(a[2]).Func("init")
	var args []Val
	if a[1] == "dumpm" {
		f = p.Method(a[2], a[3], a[4])
	} else {
		f = p.Func(a[2], a[3])
	}
	for _, pa := range f.Params {
		args = append(args, sym(pa.Name(), pa.Type()))
	}
	in.OnSite = func(st *State, s Site) {
		fmt.Println("site", s.Kind, s.Fn.Name(), p.Pos(s.Instr.Pos()), cut(s.Desc))
	}
	for _, r := range in.Run(p.NewState(), f, args...) {
		fmt.Println(r.Kind, r.Where)
		for _, v := range r.Res {
			fmt.Println("   ", cut(in.deep(r.St, v).Key()))
		}
		if o, ok := r.St.syms[f.Params[0].Name()]; ok && len(f.Params) > 0 {
			fmt.Println("  recv:", cut(in.deep(r.St, r.St.get(o)).Key()))
		}
	}
	fmt.Println(in.Total, in.steps, in.Truncated)
}

func cut(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	if len(s) > 700 {
		return s[:700] + "…"
	}
	return s
}
