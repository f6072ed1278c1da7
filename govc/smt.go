package main

// Discharging obligations with SMT solvers.

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type solverCfg struct {
	name string
	args func(secs int) []string
	pre  string
}

const ematch = `(set-option :smt.solve_eqs false)
(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.case_split 3)
(set-option :smt.delay_units true)
(set-option :smt.qi.eager_threshold 100)
(set-option :smt.arith.solver 2)
`

var solvers = []solverCfg{
	{"z3-new", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s), "-memory:3000"} }, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.solve_eqs false)\n(set-option :smt.case_split 3)\n(set-option :smt.arith.solver 2)\n"},
	{"z3-new-em", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s), "-memory:3000"} }, ematch},
	{"z3-new-cs", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s), "-memory:3000"} }, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.solve_eqs false)\n(set-option :smt.case_split 3)\n"},
	{"z3-new-def", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s), "-memory:3000"} }, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.solve_eqs false)\n"},
	{"z3-new-rel", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s), "-memory:3000"} }, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n(set-option :smt.solve_eqs false)\n(set-option :smt.relevancy 0)\n"},
	{"cvc5", func(s int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), "--no-stats"}
	}, ""},
	{"z3", func(s int) []string { return []string{"z3", "-in", fmt.Sprintf("-T:%d", s), "-memory:3000"} }, "(set-option :smt.mbqi false)\n(set-option :auto_config false)\n"},
	{"z3-new-mbqi", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s), "-memory:3000"} }, ""},
}

var sem = make(chan bool, 8)

func runSolver(ctx context.Context, c solverCfg, script string, secs int) (string, string) {
	sem <- true
	defer func() { <-sem }()
	if ctx.Err() != nil {
		return "unknown", "cancelled"
	}
	cx, cancel := context.WithTimeout(ctx, time.Duration(secs+2)*time.Second)
	defer cancel()
	a := c.args(secs)
	cmd := exec.CommandContext(cx, a[0], a[1:]...)
	cmd.Stdin = strings.NewReader(c.pre + script)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	cmd.Run()
	s := strings.TrimSpace(out.String())
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	switch first {
	case "unsat", "sat", "unknown":
		return first, s
	}
	if strings.Contains(s, "error") && !strings.Contains(s, "timeout") {
		return "error", s
	}
	return "unknown", s
}

var reTemplate = regexp.MustCompile(`: t[0-9a-f]+\(`)

var reUsed = regexp.MustCompile(`used_(flag[0-9]+)`)

var reDef = regexp.MustCompile(`^\(= ([A-Za-z_.$@!0-9]+![0-9]+) `)

type prepared struct {
	syms  [][]string // symbols of each fact
	lhs   []string   // constant defined by the fact
	flags []string   // flag of candidate facts
	dsyms [][]string
	ddef  []string
	asyms [][]string
	psyms map[string]bool
}

func symsOf(s string) []string {
	seen := map[string]bool{}
	var out []string
	eachAtom(s, func(a string) {
		if isNum(a) || seen[a] {
			return
		}
		seen[a] = true
		out = append(out, a)
	})
	return out
}

func (g *Gen) prepare() *prepared {
	p := &prepared{psyms: map[string]bool{}}
	for _, f := range g.facts {
		p.syms = append(p.syms, symsOf(f))
		l := ""
		if m := reDef.FindStringSubmatch(f); m != nil {
			l = m[1]
			// the constant must not occur in its definition
			n := 0
			eachAtom(f, func(a string) {
				if a == l {
					n++
				}
			})
			if n != 1 {
				l = ""
			}
		}
		p.lhs = append(p.lhs, l)
		fl := ""
		if strings.HasPrefix(f, "(=> flag") {
			fl = strings.Fields(f[4:])[0]
		}
		p.flags = append(p.flags, fl)
	}
	for _, d := range g.decls {
		p.dsyms = append(p.dsyms, symsOf(d))
	}
	for _, a := range g.axioms {
		p.asyms = append(p.asyms, symsOf(a.term))
	}
	return p
}

// script builds the SMT problem of an obligation (unsat: proved). on: flags of the candidates assumed.
// With cores, the facts that depend on candidates have names.
func (g *Gen) script(p *prepared, nfacts int, at *ssa.BasicBlock, goal string, on map[string]bool, cores bool) string {
	need := map[string]bool{}
	var addSyms func(ss []string)
	addSyms = func(ss []string) {
		for _, s := range ss {
			need[s] = true
		}
	}
	addSyms(symsOf(goal))
	anc := g.ancestorsOf(at)
	inc := make([]bool, nfacts)
	for i := 0; i < nfacts; i++ {
		if p.flags[i] != "" && !on[p.flags[i]] {
			continue
		}
		if p.lhs[i] == "" && (anc == nil || g.factAt[i] == nil || anc[g.factAt[i]]) {
			inc[i] = true
			addSyms(p.syms[i])
		}
	}
	for i := nfacts - 1; i >= 0; i-- {
		if !inc[i] && p.lhs[i] != "" && need[p.lhs[i]] {
			inc[i] = true
			addSyms(p.syms[i])
		}
	}
	// axioms about the specification functions in use
	ax := make([]bool, len(g.axioms))
	for ch := true; ch; {
		ch = false
		for i, ss := range p.asyms {
			if ax[i] {
				continue
			}
			all, any := true, false
			for _, s := range ss {
				if strings.HasPrefix(s, "f_") || strings.HasPrefix(s, "det_") {
					if need[s] {
						any = true
					} else {
						all = false
					}
				}
			}
			_ = all
			if any || !hasPure(ss) {
				ax[i] = true
				addSyms(ss)
				ch = true
			}
		}
	}
	// declarations
	keep := make([]bool, len(g.decls))
	for i := len(g.decls) - 1; i >= 0; i-- {
		d := g.decls[i]
		k := true
		if strings.HasPrefix(d, "(declare-const ") || strings.HasPrefix(d, "(declare-fun ") || strings.HasPrefix(d, "(declare-datatypes ") || strings.HasPrefix(d, "(declare-sort ") {
			k = false
			// a block is kept if it declares something needed
			for _, line := range strings.Split(d, "\n") {
				if strings.HasPrefix(line, "(declare-") {
					f := p.dsyms[i]
					_ = f
					for _, n := range declared(line) {
						if need[n] {
							k = true
						}
					}
				}
			}
		} else if strings.HasPrefix(d, "(assert ") {
			k = false
			for _, s := range p.dsyms[i] {
				if need[s] && (strings.HasPrefix(s, "box_") || strings.HasPrefix(s, "unbox_") || strings.HasPrefix(s, "impl_") || strings.HasPrefix(s, "in_X_")) {
					k = true
				}
			}
		}
		if k {
			keep[i] = true
			addSyms(p.dsyms[i])
		}
	}
	var b strings.Builder
	b.WriteString(prelude)
	// sorts and datatypes first, in order
	for i, d := range g.decls {
		if keep[i] {
			b.WriteString(d)
			b.WriteByte('\n')
		}
	}
	for f := range on {
		if need[f] {
			fmt.Fprintf(&b, "(declare-const %s Bool)\n(assert %s)\n", f, f)
		}
	}
	for i, a := range g.axioms {
		if ax[i] {
			fmt.Fprintf(&b, "(assert %s) ; %s\n", a.term, a.name)
		}
	}
	u := g.units(p, nfacts, goal)
	for _, x := range u.order {
		if need[x] {
			if u.val[x] {
				b.WriteString("(assert " + x + ")\n")
			} else {
				b.WriteString("(assert (not " + x + "))\n")
			}
		}
	}
	for i := 0; i < nfacts; i++ {
		if inc[i] {
			if f, ok := u.strip(g.facts[i], on); ok {
				if fl := p.flags[i]; fl != "" && cores {
					b.WriteString("(assert (! " + f + " :named used_" + fl + "))\n")
					continue
				}
				b.WriteString("(assert ")
				b.WriteString(f)
				b.WriteString(")\n")
			}
		}
	}
	if goal != "" {
		ds, as := negated(goal)
		for _, d := range ds {
			b.WriteString(d + "\n")
		}
		g.touch(&b, as)
		for _, a := range as {
			b.WriteString("(assert " + a + ")\n")
		}
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// ancestorsOf gives the blocks from which b can be reached without going around a loop; only what they
// establish matters at b, since the head of a loop stands for any number of iterations.
func (g *Gen) ancestorsOf(b *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if b == nil {
		return nil
	}
	g.ancMu.Lock()
	defer g.ancMu.Unlock()
	if a := g.ancestors[b]; a != nil {
		return a
	}
	if g.ancestors == nil {
		g.ancestors = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	}
	a := map[*ssa.BasicBlock]bool{}
	var visit func(x *ssa.BasicBlock)
	visit = func(x *ssa.BasicBlock) {
		if a[x] {
			return
		}
		a[x] = true
		for _, p := range x.Preds {
			if !x.Dominates(p) {
				visit(p)
			}
		}
	}
	visit(b)
	g.ancestors[b] = a
	return a
}

func hasPure(ss []string) bool {
	for _, s := range ss {
		if strings.HasPrefix(s, "f_") || strings.HasPrefix(s, "det_") {
			return true
		}
	}
	return false
}

func declared(line string) []string {
	f := strings.FieldsFunc(line, func(r rune) bool { return r == ' ' || r == '(' || r == ')' })
	if len(f) < 2 {
		return nil
	}
	if f[0] == "declare-datatypes" {
		// the type, its constructor and its selectors
		var out []string
		for _, x := range f[1:] {
			if strings.HasPrefix(x, "S_") || strings.HasPrefix(x, "A") || strings.HasPrefix(x, "mk_") {
				out = append(out, x)
			}
		}
		return out
	}
	return f[1:2]
}

// prove tries the solvers in turn.
func (g *Gen) prove(p *prepared, o *Oblig, on map[string]bool, secs int, portfolio bool) {
	t0 := time.Now()
	cores := o.cand != nil
	s := g.script(p, o.nfacts, o.at, o.goal, on, cores)
	if cores {
		s = "(set-option :produce-unsat-cores true)\n" + s + "(get-unsat-core)\n"
	}
	o.core = nil
	if d := os.Getenv("GOVC_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/%s-%d.smt2", d, sanitize(o.fn), o.id), []byte(solvers[0].pre+s), 0o644)
	}
	o.status = "unknown"
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	try := func(c solverCfg, secs int) bool {
		r, out := runSolver(ctx, c, s, secs)
		if r == "error" {
			o.out = c.name + ": " + out
			if strings.Contains(out, "error") {
				o.status = "error"
			}
			return false
		}
		if r == "unsat" {
			o.status, o.solver = "unsat", c.name
			if cores {
				o.core = map[string]bool{}
				for _, m := range reUsed.FindAllStringSubmatch(out, -1) {
					o.core[m[1]] = true
				}
			}
			return true
		}
		if r == "sat" {
			o.status, o.solver = "sat", c.name
		}
		o.out += c.name + ": " + r + "\n"
		return false
	}
	if try(solvers[0], secs) {
		o.secs = time.Since(t0).Seconds()
		return
	}
	if o.cand != nil && o.status != "error" && !portfolio && reTemplate.MatchString(o.cand.name) {
		// candidates from specifications get a second chance
		for _, c := range solvers {
			if c.name == "z3-new-rel" && try(c, 1) {
				o.secs = time.Since(t0).Seconds()
				return
			}
		}
	}
	if portfolio && o.status != "error" {
		var wg sync.WaitGroup
		var mu sync.Mutex
		done := false
		for _, c := range solvers[1:] {
			wg.Add(1)
			go func(c solverCfg) {
				defer wg.Done()
				r, out := runSolver(ctx, c, s, secs*2)
				mu.Lock()
				defer mu.Unlock()
				if done {
					return
				}
				if r == "unsat" {
					done = true
					o.status, o.solver = "unsat", c.name
					if cores {
						o.core = map[string]bool{}
						for _, m := range reUsed.FindAllStringSubmatch(out, -1) {
							o.core[m[1]] = true
						}
					}
					cancel()
					return
				}
				o.out += c.name + ": " + r + "\n"
				if r == "error" {
					o.out += out + "\n"
				}
			}(c)
		}
		wg.Wait()
	}
	o.secs = time.Since(t0).Seconds()
}

// stillProved: the obligation was proved from candidates that are all still there.
func (o *Oblig) stillProved(on map[string]bool) bool {
	if o.status != "unsat" || o.core == nil {
		return false
	}
	for f := range o.core {
		if !on[f] {
			return false
		}
	}
	return true
}

// Result of verifying one function.
type Result struct {
	j        job
	g        *Gen
	err      error
	failed   []*Oblig
	kept     []string
	proved   int
	total    int
	loopsBad []*LoopInfo
	secs     float64
	solverS  float64
	by       map[string]int
	vacuous  bool
	hinted   bool
	gaveUp   int // candidates
}

func (c *Ctx) verify(j job, hints map[string]bool, secs int, total bool, useHints bool) *Result {
	t0 := time.Now()
	var r *Result
	if useHints && hints != nil {
		r = c.attempt(j, hints, 1, secs, total)
		if r.err == nil && (len(r.failed) > 0 || len(r.loopsBad) > 0) && r.gaveUp > 0 && r.gaveUp <= 8 {
			// with more time for the hints that were given up
			s := r.solverS
			r = c.attempt(j, hints, 2, secs, total)
			r.solverS += s
		}
		if r.err == nil && len(r.failed) == 0 && len(r.loopsBad) == 0 {
			r.secs = time.Since(t0).Seconds()
			r.hinted = true
			return r
		}
		for _, o := range r.failed {
			fmt.Printf("rejected with the known invariants: %s: %s: %s %s\n", j.name(), o.kind, o.label, o.pos)
		}
		if r.err == nil && len(r.g.cands) == 0 && len(r.g.loops) == 0 {
			r.secs = time.Since(t0).Seconds()
			return r
		}
	}
	s0 := 0.0
	if r != nil {
		s0 = r.solverS
	}
	r = c.attempt(j, hints, 0, secs, total)
	r.solverS += s0
	r.secs = time.Since(t0).Seconds()
	return r
}

// attempt proves a function with all candidate invariants (mode 0) or those of the hints only (1: gives up on one fast, 2: slowly).
func (c *Ctx) attempt(j job, hints map[string]bool, mode int, secs int, total bool) *Result {
	hintMode := mode > 0
	r := &Result{j: j, by: map[string]int{}}
	g, err := c.generate(j, hints, hintMode, total)
	r.g = g
	if err != nil {
		r.err = err
		return r
	}
	if os.Getenv("GOVC_LOOPMAP") != "" {
		return r
	}
	p := g.prepare()
	on := map[string]bool{}
	for _, cd := range g.cands {
		on[cd.flag] = true
	}
	perCand := map[*Cand][]*Oblig{}
	var real []*Oblig
	for _, o := range g.oblig {
		if o.cand != nil {
			perCand[o.cand] = append(perCand[o.cand], o)
		} else if o.kind != "termination" || total {
			real = append(real, o)
		}
	}
	parallel := func(os []*Oblig, secs int, portfolio bool) {
		var wg sync.WaitGroup
		lim := make(chan bool, 8)
		for _, o := range os {
			wg.Add(1)
			lim <- true
			go func(o *Oblig) {
				defer wg.Done()
				g.prove(p, o, on, secs, portfolio)
				<-lim
			}(o)
		}
		wg.Wait()
		for _, o := range os {
			r.solverS += o.secs
		}
	}
	if os.Getenv("GOVC_CANDS") != "" {
		fmt.Println("candidates:", len(g.cands))
	}
	csecs := secs
	if mode == 0 {
		csecs = max(2, secs/4)
	}
	// candidates that do not hold when their loop is reached go first; the rest has to be kept by the loop too
	entryOnly := true
	for round := 0; len(g.cands) > 0 && round < 40 && !c.expired(); round++ {
		var todo []*Oblig
		for _, cd := range g.cands {
			if on[cd.flag] {
				for _, o := range perCand[cd] {
					if !o.stillProved(on) && (o.entry || !entryOnly) {
						todo = append(todo, o)
					}
				}
			}
		}
		tr := time.Now()
		parallel(todo, csecs, false)
		if os.Getenv("GOVC_CANDS") != "" {
			fmt.Printf("   round %d: %d obligations %.1fs\n", round, len(todo), time.Since(tr).Seconds())
		}
		changed := false
		if mode == 2 {
			// a second, longer try before giving a hint up
			var again []*Oblig
			for _, o := range todo {
				if o.status != "unsat" && on[o.cand.flag] {
					again = append(again, o)
				}
			}
			parallel(again, secs, true)
		}
		for _, o := range todo {
			if o.status != "unsat" && on[o.cand.flag] {
				if os.Getenv("GOVC_CANDS") != "" {
					fmt.Printf("   drop %s [%s] (#%d %s at %s)\n", o.cand.name, o.status, o.id, o.label, o.pos)
					if o.status == "error" {
						fmt.Println(o.out)
					}
				}
				delete(on, o.cand.flag)
				o.cand.on = false
				r.gaveUp++
				changed = true
			}
		}
		if !changed && !entryOnly {
			break
		}
		entryOnly = changed && entryOnly && round < 1
	}
	for _, cd := range g.cands {
		if on[cd.flag] {
			r.kept = append(r.kept, cd.name)
			for _, o := range perCand[cd] {
				r.by[o.solver]++
				r.total++
				r.proved++
			}
		}
	}
	// a short try of each, then all solvers on what is left, until enough has failed
	parallel(real, min(secs, 4), false)
	var left []*Oblig
	for _, o := range real {
		if o.status != "unsat" && o.status != "error" {
			left = append(left, o)
		}
	}
	nfail := 0
	for i := 0; i < len(left); i += 3 {
		if nfail >= 3 || nfail > 0 && hintMode && len(g.loops) > 0 || c.expired() {
			for _, o := range left[i:] {
				o.out += "not tried further\n"
			}
			break
		}
		b := left[i:min(i+3, len(left))]
		if hintMode && len(g.loops) > 0 {
			parallel(b, min(secs, 5), true) // the invariants may be different ones by now
		} else {
			parallel(b, secs, true)
		}
		for _, o := range b {
			if o.status != "unsat" {
				nfail++
			}
		}
	}
	if !hintMode && nfail > 0 && nfail < 3 && !c.expired() {
		// with more time for what is left
		var again []*Oblig
		for _, o := range left {
			if o.status != "unsat" && o.status != "error" {
				again = append(again, o)
			}
		}
		parallel(again, secs*2, true)
	}
	for _, o := range real {
		r.total++
		if o.status == "unsat" {
			r.proved++
			r.by[o.solver]++
		} else {
			r.failed = append(r.failed, o)
		}
	}
	if total {
		for _, l := range g.loops {
			ok := l.auto
			for _, m := range l.measures {
				if on[m.flag] {
					ok = true
				}
			}
			r.total++
			if ok {
				r.proved++
			} else {
				r.loopsBad = append(r.loopsBad, l)
			}
		}
	}
	// vacuity: the assumptions must not be contradictory
	if len(r.failed) == 0 && len(g.exitReach) > 0 && os.Getenv("GOVC_NOVAC") == "" {
		s := g.script(p, len(g.facts), nil, "", on, false)
		s = strings.TrimSuffix(s, "(check-sat)\n") + "(assert " + or(g.exitReach...) + ")\n(check-sat)\n"
		for _, sy := range symsOf(or(g.exitReach...)) {
			_ = sy
		}
		s = g.script(p, len(g.facts), nil, not(or(g.exitReach...)), on, false)
		res, _ := runSolver(context.Background(), solvers[0], s, max(2, secs/5))
		if res == "unsat" {
			r.vacuous = true
		}
	}
	return r
}
