package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The time an analysis may take; once something was found the rest is only
// looked at briefly.
const (
	maxTime      = 10 * time.Minute
	maxTimeFound = 90 * time.Second
)

var (
	started    = time.Now()
	theCtx     *Ctx
	lateEngine *Engine // the engine that ran when the time was up
)

type timeUp struct{}

func (e *Engine) onTime() {
	d := time.Since(started)
	if d > maxTime || d > maxTimeFound && (len(e.order) > 0 || len(theCtx.fnds) > 0) {
		lateEngine = e
		panic(timeUp{})
	}
}

// Ctx collects what one property check did.
type Ctx struct {
	P     *Program
	ID    string
	tier  string
	fnds  []*Finding
	ids   map[string]bool
	obl   map[string]int
	fns   map[string]bool
	notes []string
	count map[string]int
	rules map[string]string
	walks map[*ssa.Function]bool   // functions that follow the index paths of fields
	made  map[*ssa.Function]string // functions that make encoders and decoders of elements
}

func newCtx(p *Program, id, tier string) *Ctx {
	return &Ctx{P: p, ID: id, tier: tier, ids: map[string]bool{}, obl: map[string]int{}, fns: map[string]bool{}, count: map[string]int{}, rules: map[string]string{}}
}

func (c *Ctx) Fail(pos token.Pos, rule, construct, f string, a ...interface{}) {
	c.add(&Finding{Rule: rule, Construct: construct, Msg: fmt.Sprintf(f, a...), Pos: c.P.posStr(pos)})
}

func (c *Ctx) add(f *Finding) {
	id := f.id()
	c.obl[id] = 1
	if c.ids[id] {
		return
	}
	c.ids[id] = true
	c.fnds = append(c.fnds, f)
}

// Check records an obligation and fails it when !ok.
func (c *Ctx) Check(ok bool, pos token.Pos, rule, construct, f string, a ...interface{}) bool {
	id := rule + "|" + construct
	if _, done := c.obl[id]; !done {
		c.obl[id] = 0
	}
	if !ok {
		c.Fail(pos, rule, construct, f, a...)
	}
	return ok
}

// Anchor fails the check when something it needs is not in the repository.
func (c *Ctx) Anchor(ok bool, what string) bool {
	return c.Check(ok, token.NoPos, "anchor", what, "cannot find %s; the property cannot be decided", what)
}

func (c *Ctx) Note(f string, a ...interface{}) { c.notes = append(c.notes, fmt.Sprintf(f, a...)) }

// Merge takes over what an engine run found.
func (c *Ctx) Merge(e *Engine) {
	for id, v := range e.obl {
		if old, ok := c.obl[id]; !ok || v > old {
			c.obl[id] = v
		}
	}
	for _, id := range e.order {
		c.add(e.findings[id])
	}
	for fn := range e.fnsSeen {
		c.fns[fn.String()] = true
	}
	c.count["abstract_steps"] += e.steps
	c.count["paths"] += e.paths
	c.count["loop_generalisations"] += e.loopsGen
}

func (c *Ctx) saw(fn *ssa.Function) { c.fns[fn.String()] = true }

// min fails the check when a rule matched fewer instances than it must.
func (c *Ctx) min(what string, n, want int) {
	c.count[what] = n
	c.Check(n >= want, token.NoPos, "instances", what, "only %d instances of %s (at least %d expected): the rule no longer sees the code", n, what, want)
}

type Prop struct {
	ID, Title, Rule string
	Explain         string
	Assume          []string
	Run             func(c *Ctx)
}

var props []*Prop

func register(p *Prop) { props = append(props, p) }

func runProp(pr *Prop, repo, verif, tier string) int {
	t0 := time.Now()
	var seed int64 = 1
	if s := os.Getenv("VERIF_SEED"); s != "" {
		fmt.Sscan(s, &seed)
	}
	p, err := loadProgram(repo)
	c := newCtx(p, pr.ID, tier)
	theCtx = c
	if err != nil {
		c.P = &Program{}
		c.add(&Finding{Rule: "load", Construct: "repository", Msg: err.Error(), Pos: "?"})
	} else {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, late := r.(timeUp); late {
						c.Merge(lateEngine)
						if len(c.fnds) == 0 {
							c.add(&Finding{Rule: "engine", Construct: "time", Msg: "the analysis could not decide in time", Pos: "?"})
						}
						return
					}
					if os.Getenv("NJ_TRACE") != "" {
						panic(r)
					}
					c.add(&Finding{Rule: "engine", Construct: "panic", Msg: fmt.Sprintf("the analysis could not decide: %v", r), Pos: "?"})
				}
			}()
			pr.Run(c)
		}()
	}
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), pr.ID)
	viol := 0
	repDir := filepath.Join(verif, "evidence", "replay")
	os.MkdirAll(repDir, 0o755)
	rep := filepath.Join(repDir, pr.ID+".txt")
	os.Remove(rep)
	var lines []string
	usedKnown := map[string]bool{}
	for _, f := range c.fnds {
		if k, ok := known[f.id()]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", pr.ID, k)
			usedKnown[f.id()] = true
			c.obl[f.id()] = 2
			continue
		}
		viol++
		und := ""
		if f.Undecided {
			und = " (undecided)"
		}
		lines = append(lines, fmt.Sprintf("%s: [%s] %s%s: %s", f.Pos, f.Rule, f.Construct, und, f.Msg))
		for _, t := range f.Trace {
			lines = append(lines, "    "+t)
		}
	}
	if viol > 0 {
		os.WriteFile(rep, []byte(strings.Join(lines, "\n")+"\n"), 0o644)
		for _, l := range lines {
			if !strings.HasPrefix(l, "    ") {
				fmt.Println(shortenN(l, 400))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, rep)
	}
	ok := 0
	var keys []string
	for k, v := range c.obl {
		if v == 0 {
			ok++
		}
		keys = append(keys, k)
	}
	sort.Strings(keys)
	samples := keys
	if len(samples) > 60 {
		samples = samples[:60]
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, strings.ReplaceAll(f, repoMod, "njson"))
	}
	sort.Strings(fns)
	cov := map[string]interface{}{
		"explanation":           pr.Explain,
		"rule":                  pr.Rule,
		"obligations":           len(c.obl),
		"discharged":            ok,
		"obligation_instances":  samples,
		"functions_analysed":    fns,
		"n_functions_analysed":  len(fns),
		"repository_functions":  len(c.P.allFn),
		"repository_packages":   len(c.P.pkgs),
		"counts":                c.count,
		"notes":                 c.notes,
		"known_findings_listed": len(usedKnown),
	}
	ev := map[string]interface{}{
		"property": pr.ID, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "assumptions": pr.Assume, "wall_s": time.Since(t0).Seconds(), "violations": viol,
	}
	if pr.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(verif, "evidence", pr.ID+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d functions, %d violations, %.1fs\n", pr.ID, len(c.obl), ok, len(fns), viol, time.Since(t0).Seconds())
	if viol > 0 {
		return 1
	}
	return 0
}

func shortenN(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// loadKnown reads "KNOWN-FINDING property=<id> key=<rule|construct> :: text".
func loadKnown(file, id string) map[string]string {
	out := map[string]string{}
	f, err := os.Open(file)
	if err != nil {
		return out
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "KNOWN-FINDING property="+id+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "KNOWN-FINDING property="+id+" key=")
		if i := strings.Index(l, " :: "); i > 0 {
			out[l[:i]] = l[i+4:]
		}
	}
	return out
}
