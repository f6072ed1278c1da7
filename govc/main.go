package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func load(repo string, sp *Specs) (*Ctx, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off")}
	ps, err := packages.Load(cfg, ".", "./internal/cascadia", "./internal/props")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%v", p.Errors[0])
		}
	}
	prog, spkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	c := &Ctx{sp: sp, prog: prog, repo: repo, pkgs: map[string]*ssa.Package{}, pkgPath: map[string]bool{}, byKey: map[string]*ssa.Function{}, ifaceByKey: map[string]*ifaceM{}, modCache: map[*ssa.Function]map[string]*KeyInfo{}, loopCache: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, localCache: map[ssa.Value]bool{}, cgCache: map[string][]string{}}
	for _, p := range spkgs {
		c.pkgs[p.Pkg.Name()] = p
		c.pkgPath[p.Pkg.Path()] = true
	}
	var fns []*ssa.Function
	for f := range ssautil.AllFunctions(prog) {
		if c.inRepo(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		if f.Synthetic != "" && f.Origin() == nil && f.Name() != "init" {
			continue // wrappers
		}
		if f.Origin() == nil && f.TypeParams() != nil && f.TypeParams().Len() > 0 {
			continue // generic body; its instances count
		}
		k := fnKey(f)
		if old := c.byKey[k]; old == nil || old.Synthetic != "" && f.Synthetic == "" {
			c.byKey[k] = f
		}
	}
	for _, p := range spkgs {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok {
				continue
			}
			if it, ok := tn.Type().Underlying().(*types.Interface); ok {
				for i := 0; i < it.NumMethods(); i++ {
					m := it.Method(i).Name()
					c.ifaceByKey[p.Pkg.Name()+".("+n+")."+m] = &ifaceM{tn.Type(), m}
				}
			}
		}
	}
	return c, nil
}

func readHints(dir, name string) map[string]bool {
	b, err := os.ReadFile(filepath.Join(dir, sanitizeFile(name)+".json"))
	if err != nil {
		return nil
	}
	var l []string
	json.Unmarshal(b, &l)
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}

func sanitizeFile(s string) string {
	return strings.NewReplacer("/", "_", " ", "_", "(", "", ")", "", "*", "").Replace(s)
}

func writeHints(dir, name string, l []string) {
	os.MkdirAll(dir, 0o755)
	for h := range readHints(dir, name) { // what other properties need
		if !slices.Contains(l, h) {
			l = append(l, h)
		}
	}
	sort.Strings(l)
	if l == nil {
		l = []string{}
	}
	b, _ := json.MarshalIndent(l, "", " ")
	os.WriteFile(filepath.Join(dir, sanitizeFile(name)+".json"), append(b, '\n'), 0o644)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	specs := flag.String("specs", "/verif/specs", "")
	hintDir := flag.String("hints", "/verif/hints", "")
	prop := flag.String("prop", "", "property to check")
	fnsF := flag.String("fn", "", "only this contract key")
	update := flag.Bool("update", false, "write hints")
	secs := flag.Int("secs", 10, "solver time per obligation")
	verbose := flag.Bool("v", false, "")
	total := flag.Bool("total", false, "")
	noHints := flag.Bool("nohints", false, "")
	report := flag.String("report", "", "write a JSON report")
	limit := flag.Int("limit", 0, "seconds for the whole run (0: no limit)")
	flag.Parse()
	sp, err := loadSpecs(*specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	c, err := load(*repo, sp)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	c.prop = *prop
	if *limit > 0 {
		c.deadline = time.Now().Add(time.Duration(*limit) * time.Second)
	}
	rep := c.run(*fnsF, *hintDir, *update, *secs, *total, *noHints, *verbose)
	if *report != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(*report, append(b, '\n'), 0o644)
	}
	if len(rep.Failures) > 0 {
		os.Exit(1)
	}
}

// Report of a run.
type Report struct {
	Property    string         `json:"property"`
	Functions   []FnReport     `json:"functions"`
	Failures    []Failure      `json:"failures"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Trivial     int            `json:"trivial"`
	By          map[string]int `json:"by_solver"`
	SolverSecs  float64        `json:"solver_seconds"`
	Externs     []string       `json:"assumed_contracts"`
	Assumes     []string       `json:"assumed_facts"`
	Inlined     []string       `json:"inlined"`
	Axioms      []string       `json:"axioms"`
	Lemmas      []string       `json:"lemmas"`
	Notes       []string       `json:"notes"`
}

type FnReport struct {
	Name        string `json:"name"`
	Obligations int    `json:"obligations"`
	Discharged  int    `json:"discharged"`
	Invariants  int    `json:"loop_invariants"`
	Secs        float64
}

type Failure struct {
	Function string `json:"function"`
	Kind     string `json:"kind"`
	Label    string `json:"obligation"`
	Pos      string `json:"position"`
	Output   string `json:"verifier_output"`
	Goal     string `json:"goal"`
}

func (c *Ctx) jobsFor(key string) []job {
	con := c.sp.contracts[key]
	if it := c.ifaceByKey[key]; it != nil {
		if con == nil || con.extern {
			return nil
		}
		var out []job
		for _, f := range c.implementors(it.t, it.m) {
			f = unwrap(f)
			out = append(out, job{f, key, con})
		}
		return out
	}
	f := c.byKey[key]
	if f == nil {
		return nil
	}
	return []job{{f, key, con}}
}

// unwrap finds the method behind a promoted-method or pointer wrapper.
func unwrap(f *ssa.Function) *ssa.Function { return f }

// expandRoots replaces pkg.ALL by the functions of the package.
func (c *Ctx) expandRoots(in []string) (out []string) {
	for _, r := range in {
		if !strings.HasSuffix(r, ".ALL") {
			out = append(out, r)
			continue
		}
		p := strings.TrimSuffix(r, "ALL")
		for _, k := range sortedKeys(c.byKey) {
			if strings.HasPrefix(k, p) && c.byKey[k].Parent() == nil && c.byKey[k].Name() != "init" {
				out = append(out, k)
			}
		}
	}
	return out
}

func (c *Ctx) run(only, hintDir string, update bool, secs int, total, noHints, verbose bool) *Report {
	rep := &Report{Property: c.prop, By: map[string]int{}, Failures: []Failure{}}
	var roots, totals []string
	if only != "" {
		if !strings.HasPrefix(only, "lemma") {
			roots = strings.Split(only, ",")
		}
	} else if d := c.sp.props[c.prop]; d == nil {
		rep.Failures = append(rep.Failures, Failure{"", "missing", "no property " + c.prop + " in the specs", "", "", ""})
		rep.Obligations++
		return rep
	} else {
		totals, roots = c.expandRoots(d.total), c.expandRoots(d.roots)
	}
	done := map[string]bool{}
	queue := append([]string{}, totals...)
	if total {
		queue, roots = append(queue, roots...), nil
	}
	total = true // first what must terminate, then the rest
	exts, assumes, inl := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for len(queue) > 0 || len(roots) > 0 {
		if len(queue) == 0 {
			queue, roots, total = roots, nil, false
		}
		key := queue[0]
		queue = queue[1:]
		if done[key] {
			continue
		}
		done[key] = true
		con := c.sp.contracts[key]
		if con != nil && con.extern {
			exts[key] = true
			continue
		}
		jobs := c.jobsFor(key)
		if len(jobs) == 0 {
			rep.Failures = append(rep.Failures, Failure{key, "missing", "function under contract does not exist", "", "", ""})
			rep.Obligations++
			continue
		}
		for _, j := range jobs {
			hints := readHints(hintDir, j.name())
			r := c.verify(j, hints, secs, total, !noHints && !update)
			if update && r.err == nil {
				writeHints(hintDir, j.name(), r.kept)
			}
			c.collect(rep, r, exts, assumes, inl, verbose)
			if only == "" && r.g != nil {
				for _, k := range sortedKeys(r.g.calls) {
					if !done[k] {
						queue = append(queue, k)
					}
				}
			}
		}
	}
	for k := range exts {
		rep.Externs = append(rep.Externs, k)
	}
	sort.Strings(rep.Externs)
	rep.Assumes = sortedSet(assumes)
	rep.Inlined = sortedSet(inl)
	rep.Notes = c.sp.noted
	for _, a := range c.sp.axioms {
		if !a.lemma {
			rep.Axioms = append(rep.Axioms, a.name)
		}
	}
	if only == "" || strings.HasPrefix(only, "lemma") {
		for _, a := range c.sp.axioms {
			if a.lemma && (only == "" || only == "lemma" || only == "lemma."+a.name) {
				c.proveLemma(rep, a, secs, verbose)
			}
		}
	}
	if verbose {
		fmt.Printf("total: %d obligations, %d discharged, %d failures, %.1fs solver\n", rep.Obligations, rep.Discharged, len(rep.Failures), rep.SolverSecs)
	}
	return rep
}

func (c *Ctx) proveLemma(rep *Report, a *AxiomDecl, secs int, verbose bool) {
	g, err := c.lemmaGen(a)
	if err != nil {
		rep.Failures = append(rep.Failures, Failure{"lemma " + a.name, "error", err.Error(), "", "", ""})
		return
	}
	p := g.prepare()
	for _, o := range g.oblig {
		g.prove(p, o, map[string]bool{}, secs, true)
		rep.Obligations++
		rep.SolverSecs += o.secs
		if o.status == "unsat" {
			rep.Discharged++
			rep.By[o.solver]++
		} else {
			rep.Failures = append(rep.Failures, Failure{"lemma " + a.name, "lemma", o.label, "", o.out, o.goal})
		}
		if verbose {
			fmt.Printf("lemma %-40s %s %.1fs\n", a.name, o.status, o.secs)
		}
	}
	rep.Lemmas = append(rep.Lemmas, a.name)
}

func (c *Ctx) collect(rep *Report, r *Result, exts, assumes, inl map[string]bool, verbose bool) {
	name := r.j.name()
	if r.err != nil {
		rep.Failures = append(rep.Failures, Failure{name, "error", r.err.Error(), "", "", ""})
		rep.Obligations++
		if verbose {
			fmt.Printf("%-60s ERROR %v\n", name, r.err)
		}
		return
	}
	g := r.g
	for k := range g.exts {
		exts[k] = true
	}
	for k := range g.inlined {
		inl[k] = true
	}
	for k := range g.treeUsed {
		assumes["values of type "+k+" are finite trees"] = true
	}
	if r.j.con != nil && len(r.j.con.assumes) > 0 {
		assumes[fmt.Sprintf("%s: %d assumed facts (%s)", r.j.key, len(r.j.con.assumes), filepath.Base(r.j.con.file))] = true
	}
	rep.Obligations += r.total
	rep.Discharged += r.proved
	rep.Trivial += g.trivial
	rep.SolverSecs += r.solverS
	for k, v := range r.by {
		rep.By[k] += v
	}
	rep.Functions = append(rep.Functions, FnReport{name, r.total, r.proved, len(r.kept), r.secs})
	for _, o := range r.failed {
		rep.Failures = append(rep.Failures, Failure{name, o.kind, o.label, o.pos, o.status + "\n" + o.out, o.goal})
	}
	for _, l := range r.loopsBad {
		rep.Failures = append(rep.Failures, Failure{name, "termination", "no ranking measure for loop " + l.name, l.pos, "", ""})
		rep.Obligations++
	}
	if r.vacuous {
		rep.Failures = append(rep.Failures, Failure{name, "vacuous", "the assumptions are contradictory (no exit is reachable)", "", "", ""})
		rep.Obligations++
	}
	if verbose {
		fmt.Printf("%-60s %d/%d inv=%d hinted=%v %.1fs (solver %.1fs)\n", name, r.proved, r.total, len(r.kept), r.hinted, r.secs, r.solverS)
		for _, o := range r.failed {
			fmt.Printf("   FAIL %s %s: %s [%s] %.1fs (#%d)\n", o.pos, o.kind, o.label, o.status, o.secs, o.id)
			if o.status == "error" {
				fmt.Println(o.out)
			}
		}
		for _, l := range r.loopsBad {
			fmt.Printf("   FAIL %s termination of loop %s\n", l.pos, l.name)
		}
		if r.vacuous {
			fmt.Printf("   VACUOUS\n")
		}
		for _, s := range sortedSet(g.specProblems) {
			fmt.Println("   note:", s)
		}
	}
}
