package main

// Check framework: obligations, reports, evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	Rule   string `json:"rule"`
	Where  string `json:"construct"`
	OK     bool   `json:"holds"`
	Detail string `json:"detail,omitempty"`
}

type Check struct {
	P       *Program
	id      string
	tier    string
	seed    int
	obls    []Obl
	fns     map[string]bool
	sites   int
	steps   int
	min     int
	assume  []string
	rules   string
	trusted []string
	started time.Time
	cover   map[string]interface{}
	shared  int // objects seen by several goroutines
	poolN   int // buffers returned to the pool
}

type checkDef struct {
	id  string
	run func(c *Check)
	ruleText
}

var checks = map[string]*checkDef{}

func register(d *checkDef) {
	d.ruleText = rules[d.id]
	checks[d.id] = d
}

func (c *Check) ob(ok bool, rule, where, detail string, args ...interface{}) bool {
	o := Obl{Rule: rule, Where: where, OK: ok}
	if !ok {
		o.Detail = fmt.Sprintf(detail, args...)
		if len(o.Detail) > 1500 {
			o.Detail = clip(o.Detail, 1500)
		}
	}
	c.obls = append(c.obls, o)
	return ok
}

// absorb records what an abstract execution visited.
func (c *Check) absorb(I *Interp) {
	for f := range I.fnSeen {
		c.fns[f.String()] = true
	}
	for _, n := range I.sites {
		c.sites += n
	}
	c.steps += I.steps
}

// part is a piece of a check that a process of its own can work on.
type part struct {
	name string
	run  func()
}

type partResult struct {
	Obls  []Obl
	Fns   []string
	Sites int
	Steps int
}

// parallel runs the parts in processes of their own, as many at a time as there are cores.
func (c *Check) parallel(parts []part) {
	if w := os.Getenv("ZK_PART"); w != "" {
		i, _ := strconv.Atoi(w)
		c.obls = nil
		parts[i].run()
		r := partResult{Obls: c.obls, Sites: c.sites, Steps: c.steps}
		for f := range c.fns {
			r.Fns = append(r.Fns, f)
		}
		b, _ := json.Marshal(r)
		if os.WriteFile(os.Getenv("ZK_PARTOUT"), b, 0o644) != nil {
			os.Exit(2)
		}
		os.Exit(0)
	}
	exe, err := os.Executable()
	dir, err2 := os.MkdirTemp("", "zkstat")
	if err != nil || err2 != nil {
		c.ob(false, "analysis completes", "analyser", "%v %v", err, err2)
		return
	}
	defer os.RemoveAll(dir)
	res := make([]*partResult, len(parts))
	why := make([]string, len(parts))
	next := make(chan int)
	var wg sync.WaitGroup
	for n := 0; n < runtime.NumCPU(); n++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				out := filepath.Join(dir, strconv.Itoa(i))
				cmd := exec.Command(exe, append(append([]string{}, os.Args[1:]...), "-out", dir)...)
				cmd.Env = append(os.Environ(), "ZK_PART="+strconv.Itoa(i), "ZK_PARTOUT="+out, "GOMAXPROCS=2")
				if os.Getenv("ZK_SUB") != "" {
					cmd.Stderr = os.Stderr
				}
				msg, err := cmd.Output()
				b, rerr := os.ReadFile(out)
				r := &partResult{}
				if err != nil || rerr != nil || json.Unmarshal(b, r) != nil {
					why[i] = fmt.Sprintf("%v: %s", err, clip(string(msg), 500))
					continue
				}
				res[i] = r
			}
		}()
	}
	for i := range parts {
		next <- i
	}
	close(next)
	wg.Wait()
	for i, r := range res {
		if r == nil {
			c.ob(false, parts[i].name, "analyser", "analysis could not decide this obligation: %s", why[i])
			continue
		}
		c.obls = append(c.obls, r.Obls...)
		for _, f := range r.Fns {
			c.fns[f] = true
		}
		c.sites += r.Sites
		c.steps += r.Steps
	}
}

// sub runs one part of a check with fresh engine tables; an engine failure is an undecided obligation.
func (c *Check) sub(name string, f func()) {
	if os.Getenv("ZK_SUB") != "" {
		t0 := time.Now()
		fmt.Fprintln(os.Stderr, "sub", name)
		defer func() { fmt.Fprintln(os.Stderr, "  done", name, time.Since(t0)) }()
	}
	resetEngine()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("ZK_STACK") != "" {
					debug.PrintStack()
				}
				c.ob(false, name, "analyser", "analysis could not decide this obligation: %v", r)
			}
		}()
		f()
	}()
}

func resetEngine() {
	B = newBddMgr()
	atoms, atomKey = nil, map[string]*Atom{}
	polyIntern = map[string]*Poly{}
	indC = map[Bdd]*Poly{}
	ivC = map[*Poly][2]bigPtr{}
	canonC = map[string]*Poly{}
	patoms, patomBy = nil, map[string]*PAtom{}
	ptIntern = map[string]*Pt{}
	seqIntern = map[string]*Seq{}
	seqEqInfo = map[int32][2]*Seq{}
	mergeNotes = 0
	for _, f := range resetHooks {
		f()
	}
}

var resetHooks []func()

func (c *Check) where(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return c.P.pos(fn.Pos()) + " " + shortFn(fn)
}

func runCheck(repo, id, tier, out string) int {
	d := checks[id]
	if d == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		return 2
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Check{id: id, tier: tier, seed: seed, fns: map[string]bool{}, started: time.Now(), cover: map[string]interface{}{}}
	go watchdog(id, out)
	p, err := loadProgram(repo)
	if err != nil {
		c.ob(false, "the repository type-checks", repo, "%v", err)
	} else {
		c.P = p
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.ob(false, "analysis completes", "analyser", "panic: %v\n%s", r, debug.Stack())
				}
			}()
			d.run(c)
		}()
		if len(c.obls) < d.min {
			c.ob(false, "instance count", "analyser", "only %d obligations were generated, at least %d were confirmed by hand: part of the code the rule is about was not found", len(c.obls), d.min)
		}
	}
	var bad []Obl
	for _, o := range c.obls {
		if !o.OK {
			bad = append(bad, o)
		}
	}
	os.MkdirAll(out, 0o755)
	vf := filepath.Join(out, id+".violation.txt")
	os.Remove(vf)
	fns := make([]string, 0, len(c.fns))
	for f := range c.fns {
		fns = append(fns, strings.ReplaceAll(f, repoPrefix, "zksigma"))
	}
	sort.Strings(fns)
	repoFns := 0
	for f := range c.fns {
		if strings.Contains(f, repoPrefix) {
			repoFns++
		}
	}
	byRule := map[string]int{}
	for _, o := range c.obls {
		byRule[o.Rule]++
	}
	disch := len(c.obls) - len(bad)
	var samples []Obl
	for i, o := range c.obls {
		if i%(1+len(c.obls)/12) == 0 {
			samples = append(samples, o)
		}
	}
	cov := map[string]interface{}{
		"explanation":         d.rule,
		"obligations":         len(c.obls),
		"discharged":          disch,
		"functions_analysed":  fns,
		"repo_functions":      repoFns,
		"call_sites_resolved": c.sites,
		"instructions":        c.steps,
		"obligations_by_rule": byRule,
		"samples":             samples,
		"checker_cmd":         "bin/zkstat -repo /repo -prop " + id,
		"trusted_base":        append([]string{"go/types and golang.org/x/tools/go/ssa", "zkstat's transfer functions and its contracts for the Go standard library"}, c.trusted...),
	}
	for k, v := range c.cover {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": append(d.assum, c.assume...), "wall_s": time.Since(c.started).Seconds(), "violations": len(bad),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, id+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d repository functions, %d call sites, %.1fs\n", id, len(c.obls), disch, repoFns, c.sites, time.Since(c.started).Seconds())
	if len(bad) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, o := range bad {
		fmt.Fprintf(&sb, "%s\n  rule: %s\n  %s\n\n", o.Where, o.Rule, o.Detail)
	}
	os.WriteFile(vf, []byte(sb.String()), 0o644)
	s := sb.String()
	if len(s) > 6000 {
		s = s[:6000] + "…\n"
	}
	fmt.Print(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, vf)
	return 1
}

// watchdog turns an analysis that cannot finish into an undecided obligation.
func watchdog(id, out string) {
	start := time.Now()
	for {
		time.Sleep(time.Second)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		why := ""
		if time.Since(start) > 780*time.Second {
			why = "the analysis did not finish in time"
		} else if m.Sys > 14<<30 {
			why = "the analysis ran out of memory"
		}
		if why == "" {
			continue
		}
		os.MkdirAll(out, 0o755)
		vf := filepath.Join(out, id+".violation.txt")
		os.WriteFile(vf, []byte("analyser\n  rule: every obligation is decided\n  "+why+"\n"), 0o644)
		ev := map[string]interface{}{"property": id, "tier": os.Getenv("VERIF_TIER"), "seed": 0, "level": "other", "coverage": map[string]interface{}{"explanation": why}, "wall_s": time.Since(start).Seconds(), "violations": 1}
		b, _ := json.Marshal(ev)
		os.WriteFile(filepath.Join(out, id+".json"), b, 0o644)
		fmt.Println(why)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, vf)
		os.Exit(1)
	}
}
