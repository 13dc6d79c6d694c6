package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Ctx collects the obligations of one property check.
type Ctx struct {
	predicates map[*ssa.Function]predicateSet

	widthOf string
	P       *Prog
	ID      string
	Tier    string
	Obs     []Ob
	Rules   map[string]string
	Mins    map[string]int
	Counts  map[string]int
	Notes   map[string]any
	Assume  []string
	Known   []KnownFinding
	Funcs   map[string]bool
	started time.Time
	seen    map[string]int
}

// Ob is one obligation.
type Ob struct {
	Rule, Key, Where, Detail string
	OK                       bool
}

// KnownFinding is one listed finding.
type KnownFinding struct {
	Property, Key, What string
	Status              string // "finding" or "fixed"
}

// Rule declares a rule with the least number of instances confirmed by hand.
func (c *Ctx) Rule(name, text string, min int) {
	c.Rules[name] = text
	c.Mins[name] = min
}

// Check records an obligation; the key identifies rule and construct.
func (c *Ctx) Check(rule, construct string, ok bool, where, detail string, a ...any) {
	if len(a) > 0 {
		detail = fmt.Sprintf(detail, a...)
	}
	k := rule + "|" + construct
	if i, dup := c.seen[k]; dup {
		if c.Obs[i].OK && !ok {
			c.Obs[i].OK = false
			c.Obs[i].Where, c.Obs[i].Detail = where, detail
		}
		return
	}
	c.seen[k] = len(c.Obs)
	c.Counts[rule]++
	c.Obs = append(c.Obs, Ob{rule, k, where, detail, ok})
}

// Undecided records an obligation the analysis cannot decide because the code
// has a form it does not model. It is reported in the evidence, not alarmed.
func (c *Ctx) Undecided(rule, construct, why string) {
	k := rule + "|" + construct
	if _, dup := c.seen["?"+k]; dup {
		return
	}
	c.seen["?"+k] = -1
	c.Counts[rule]++
	c.note("undecided: %s: %s", k, why)
}

func (c *Ctx) use(in *Interp) {
	for f := range in.Funcs {
		c.Funcs[f.String()] = true
	}
}

var verifDir = "/verif"

func loadKnown(id string) []KnownFinding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	var out []KnownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		// finding: property=<id> key=<key> :: <what>
		st := "finding"
		if strings.HasPrefix(l, "fixed:") {
			st = "fixed"
		} else if !strings.HasPrefix(l, "finding:") {
			continue
		}
		body := strings.TrimSpace(l[strings.Index(l, ":")+1:])
		k := KnownFinding{Status: st}
		if !strings.HasPrefix(body, "property=") {
			continue
		}
		body = body[len("property="):]
		sp := strings.IndexByte(body, ' ')
		if sp < 0 {
			continue
		}
		k.Property = body[:sp]
		body = strings.TrimSpace(body[sp:])
		if st == "finding" {
			if !strings.HasPrefix(body, "key=") {
				continue
			}
			i := strings.Index(body, " :: ")
			if i < 0 {
				continue
			}
			k.Key, k.What = strings.TrimSpace(body[4:i]), strings.TrimSpace(body[i+4:])
		} else {
			k.What = body
		}
		if k.Property == id {
			out = append(out, k)
		}
	}
	return out
}

func (c *Ctx) finish() int {
	undecided := false
	for k := range c.seen {
		undecided = undecided || strings.HasPrefix(k, "?")
	}
	for r, m := range c.Mins {
		if c.Counts[r] < m && undecided {
			// something was not decided and its instances are missing
			c.note("rule %q matched %d instances, fewer than the %d confirmed by hand", r, c.Counts[r], m)
			continue
		}
		if c.Counts[r] < m {
			c.Obs = append(c.Obs, Ob{Rule: r, Key: "vacuity|" + r, Where: "-", Detail: fmt.Sprintf("rule %q matched %d instances, fewer than the %d confirmed by hand: %s", r, c.Counts[r], m, c.Rules[r])})
		}
	}
	known := map[string]KnownFinding{}
	for _, k := range c.Known {
		if k.Status == "finding" {
			known[k.Key] = k
		}
	}
	var viol []Ob
	knownHit := 0
	discharged := 0
	for _, o := range c.Obs {
		if o.OK {
			discharged++
			continue
		}
		if k, ok := known[o.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s at %s]\n", c.ID, k.What, o.Key, o.Where)
			knownHit++
			continue
		}
		viol = append(viol, o)
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence", "replay"), 0o755)
	byRule := map[string]int{}
	for _, o := range c.Obs {
		byRule[o.Rule]++
	}
	var samples []string
	perRule := map[string]int{}
	for _, o := range c.Obs {
		if perRule[o.Rule] < 4 {
			perRule[o.Rule]++
			samples = append(samples, fmt.Sprintf("%s @ %s ok=%v", o.Key, o.Where, o.OK))
		}
	}
	var fns []string
	for f := range c.Funcs {
		fns = append(fns, strings.ReplaceAll(f, modPath+"/", ""))
	}
	sort.Strings(fns)
	nf := len(fns)
	if len(fns) > 400 {
		fns = fns[:400]
	}
	cov := map[string]any{
		"explanation":        "static analysis of the current source; each obligation is one instance of a rule over resolved program constructs; the code is not executed",
		"rules":              c.Rules,
		"rule_instances":     byRule,
		"obligations":        len(c.Obs),
		"discharged":         discharged,
		"known_findings":     knownHit,
		"functions_analysed": nf,
		"functions":          fns,
		"samples":            samples,
		"packages_loaded":    len(c.P.Pkgs),
	}
	for k, v := range c.Notes {
		cov[k] = v
	}
	ev := map[string]any{
		"property":    c.ID,
		"tier":        c.Tier,
		"seed":        seedEnv(),
		"level":       "other",
		"coverage":    cov,
		"assumptions": c.Assume,
		"wall_s":      time.Since(c.started).Seconds(),
		"violations":  len(viol),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", c.ID+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	fmt.Printf("property %s: %d rules, %d obligations, %d discharged, %d known findings, %d functions analysed, %.1fs\n", c.ID, len(c.Rules), len(c.Obs), discharged, knownHit, nf, time.Since(c.started).Seconds())
	if len(viol) == 0 {
		return 0
	}
	rp := filepath.Join(verifDir, "evidence", "replay", c.ID+".txt")
	var sb strings.Builder
	for _, o := range viol {
		fmt.Fprintf(&sb, "rule: %s\n  %s\nconstruct: %s\nwhere: %s\nfinding: %s\n\n", o.Rule, c.Rules[o.Rule], o.Key, o.Where, o.Detail)
	}
	os.WriteFile(rp, []byte(sb.String()), 0o644)
	for i, o := range viol {
		if i >= 40 {
			fmt.Printf("  … and %d more\n", len(viol)-i)
			break
		}
		fmt.Printf("  %s: [%s] %s\n", o.Where, o.Key, o.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rp)
	return 1
}

func seedEnv() int {
	var n int
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

// runCheck runs one property; internal failures become violations.
func runCheck(p *Prog, id, tier string, t0 time.Time) (code int) {
	c := newCtx(p, id, tier)
	c.started = t0
	c.Known = loadKnown(id)
	f, ok := checks[id]
	if !ok {
		fmt.Println("unknown property", id)
		return 2
	}
	defer func() {
		if r := recover(); r != nil {
			msg := fmt.Sprint(r)
			if fe, ok := r.(fatalErr); ok {
				msg = fe.msg
			} else {
				msg += "\n" + string(debug.Stack())
			}
			c.Rule("analysis", "the analysis must be able to resolve its anchors", 0)
			c.Check("analysis", "failure", false, "-", "analysis could not complete: %s", msg)
			code = c.finish()
		}
	}()
	f(c)
	return c.finish()
}

// note records a remark in the evidence.
func (c *Ctx) note(format string, args ...any) {
	l, _ := c.Notes["remarks"].([]string)
	s := fmt.Sprintf(format, args...)
	for _, x := range l {
		if x == s {
			return
		}
	}
	c.Notes["remarks"] = append(l, s)
}

func newCtx(p *Prog, id, tier string) *Ctx {
	return &Ctx{P: p, ID: id, Tier: tier, Rules: map[string]string{}, Mins: map[string]int{}, Counts: map[string]int{}, Notes: map[string]any{}, Funcs: map[string]bool{}, seen: map[string]int{}}
}
