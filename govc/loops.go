package main

// Loops: the state written in the body is forgotten, candidate invariants are assumed for an
// arbitrary iteration and checked at entry and at each back edge (Houdini keeps the inductive ones).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LCtx is a point at which a candidate is evaluated.
type LCtx struct {
	st  *State
	phi map[*ssa.Phi]*Val
}

type candFn func(c *LCtx) string

type loopShape struct {
	fr    *Frame
	l     *Loop
	info  *LoopInfo
	phis  []*ssa.Phi
	init  map[*ssa.Phi]*Val // values at entry
	cur   map[*ssa.Phi]*Val // values in an arbitrary iteration
	count func(c *LCtx) string
	st0   *State // state before the loop
	over  *Val   // slice or string ranged over
	overV ssa.Value
	rng   *ssa.Range // map or string range
	rngIt *Val
}

func headPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			out = append(out, p)
		}
	}
	return out
}

func (g *Gen) runLoop(fr *Frame, l *Loop, edges []Edge, ctl *Control) {
	S0, reach0 := g.join(fr, l.head, edges)
	phis := headPhis(l.head)
	init := map[*ssa.Phi]*Val{}
	for _, p := range phis {
		v := *fr.vals[p]
		init[p] = &v
	}
	order := []*ssa.BasicBlock{}
	for _, b := range rpo(fr.fn) {
		if l.body[b] {
			order = append(order, b)
		}
	}
	if g.constTrip(fr, l, init) {
		g.unroll(fr, l, order, S0, reach0, ctl)
		return
	}
	rec := fr.cache[l.head]
	if rec == nil {
		rec = g.dryLoop(fr, l, order, S0, phis)
		fr.cache[l.head] = rec
	}
	for _, r := range g.recs { // the outer recorders see the writes of the loop
		for k, ki := range rec.keys {
			r.keys[k] = ki
			for _, x := range rec.refs[k] {
				r.refs[k] = append(r.refs[k], x)
			}
		}
	}
	g.nLoop++
	info := &LoopInfo{name: fmt.Sprintf("%s%s#%d", fr.path, fnKey(fr.fn), g.loopNo(fr.fn, l)), pos: g.posOf(loopPos(l))}
	if os.Getenv("GOVC_LOOPMAP") != "" {
		fmt.Println("LOOPMAP", g.name0, fr.prefix+fmt.Sprintf("%s#%d", fnKey(fr.fn), l.head.Index), info.name)
	}
	sh := &loopShape{fr: fr, l: l, info: info, phis: phis, init: init, st0: S0.clone(), cur: map[*ssa.Phi]*Val{}}
	// arbitrary iteration
	S1 := S0.clone()
	for _, k := range sortedKeys(rec.keys) {
		ki := rec.keys[k]
		if _, isLocalInner := S0.m[k]; (ki.kind == 'L' || ki.kind == 'I') && !isLocalInner {
			continue // local of an iteration
		}
		nv := g.fresh(shortKey(k), ki.sort)
		S1.m[k] = nv
		switch ki.kind {
		case 'A':
			g.fact("(<= " + g.get(S0, k) + " " + nv + ")")
		case 'D':
			g.fact(fmt.Sprintf("(= (select %s 0) %s)", nv, g.emptySet(ki.ty.Underlying().(*types.Map).Key())))
		}
	}
	for _, k := range sortedKeys(rec.keys) {
		if ki := rec.keys[k]; ki.kind == 'L' && S1.m[k] != "" {
			for _, f := range g.wf(ki.ty, S1.m[k], g.get(S1, g.keyAlloc())) {
				g.fact(f)
			}
		}
	}
	for _, p := range phis {
		c := g.fresh("lp_"+sanitize(p.Comment), g.sort(p.Type()))
		v := &Val{t: c, ty: p.Type()}
		if init[p].clo != nil {
			v.clo = init[p].clo
		}
		for _, f := range g.wf(p.Type(), c, g.get(S1, g.keyAlloc())) {
			g.fact(f)
		}
		fr.vals[p] = v
		sh.cur[p] = v
	}
	reach1 := g.fresh("rl", "Bool")
	g.fact(imp(reach1, reach0))
	g.shapeOf(sh, rec)
	if g.dry == 0 {
		g.loops = append(g.loops, info)
	}
	c0 := &LCtx{S0, init}
	c1 := &LCtx{S1, sh.cur}
	g.loopStack = append(g.loopStack, sh)
	type lc struct {
		c *Cand
		f candFn
	}
	var cands []lc
	if g.dry == 0 {
		addc := func(name string, f candFn) {
			full := info.name + ": " + name
			if g.hintMode && !g.hints[full] && !(allTemplates != "" && info.name == allTemplates && templateName.MatchString(name)) {
				return
			}
			t0 := func() (t string) {
				defer func() {
					if r := recover(); r != nil {
						if ee, ok := r.(elabErr); ok {
							g.specProblems[ee.msg] = true
							t = "?"
							return
						}
						panic(r)
					}
				}()
				return f(c0)
			}()
			if t0 == "?" || t0 == "" {
				return
			}
			cd := &Cand{id: len(g.cands), name: full, flag: fmt.Sprintf("flag%d", len(g.cands)), on: true, loop: info}
			g.cands = append(g.cands, cd)
			cands = append(cands, lc{cd, f})
			g.candObl(cd, "loop invariant at entry: "+name, info.pos, reach0, t0)
		}
		if sh.count != nil && sh.over != nil {
			// true; the loop ends with the count equal to the length
			n, l := sh.count(c1), "(slength "+sh.over.t+")"
			if g.sort(sh.over.ty) == "Str" {
				l = "(slen " + sh.over.t + ")"
			}
			g.fact(or("(< "+n+" "+l+")", "(= "+n+" "+l+")", "(> "+n+" "+l+")"))
		}
		g.autoCands(sh, rec, S0, S1, addc)
		g.templateCands(sh, addc)
		for _, x := range cands {
			g.fact("(=> " + x.c.flag + " " + imp(reach1, x.f(c1)) + ")")
		}
	}
	// measures
	type mc struct {
		c  *Cand
		f  func(c *LCtx) []string
		m1 []string
	}
	var ms []mc
	if g.dry == 0 && g.total {
		addm := func(name string, f func(c *LCtx) []string) {
			full := info.name + ": measure " + name
			if g.hintMode && !g.hints[full] && !(allTemplates != "" && info.name == allTemplates && templateName.MatchString(name)) {
				return
			}
			var m1 []string
			bad := false
			func() {
				defer func() {
					if r := recover(); r != nil {
						if ee, ok := r.(elabErr); ok {
							g.specProblems[ee.msg] = true
							bad = true
							return
						}
						panic(r)
					}
				}()
				m1 = f(c1)
			}()
			if bad || len(m1) == 0 {
				return
			}
			cd := &Cand{id: len(g.cands), name: full, flag: fmt.Sprintf("flag%d", len(g.cands)), on: true, loop: info}
			g.cands = append(g.cands, cd)
			info.measures = append(info.measures, cd)
			ms = append(ms, mc{cd, f, m1})
		}
		g.autoMeasures(sh, addm)
		g.templateMeasures(sh, addm)
	}
	nctl := &Control{in: ctl.in, head: l.head, parent: ctl}
	nctl.in[l.head] = []Edge{{nil, reach1, S1.clone()}}
	nctl.isHead = true
	nc0 := len(g.cands)
	_ = nc0
	g.runBlocks(fr, order, l, nctl)
	g.loopStack = g.loopStack[:len(g.loopStack)-1]
	if g.dry > 0 {
		return
	}
	back := live(nctl.back)
	if len(back) == 0 {
		info.auto = true
	}
	for _, e := range back {
		if fr.parent == nil {
			g.at = e.from
		}
		cb := &LCtx{e.st, map[*ssa.Phi]*Val{}}
		for _, p := range phis {
			for k, pr := range l.head.Preds {
				if pr == e.from {
					v := g.val(fr, e.st, p.Edges[k])
					g.valTerm(v, p.Edges[k], e.cond)
					cb.phi[p] = v
				}
			}
		}
		for _, x := range cands {
			g.candObl(x.c, "loop invariant kept: "+strings.TrimPrefix(x.c.name, info.name+": "), info.pos, e.cond, x.f(cb))
		}
		for _, m := range ms {
			g.candObl(m.c, "loop measure decreases", info.pos, e.cond, lexDec(m.f(cb), m.m1))
		}
		if sh.rng != nil {
			if m, ok := sh.rng.X.Type().Underlying().(*types.Map); ok {
				// ranging over a map ends if nothing is inserted into it
				kd := g.keyDom(m)
				if _, w := rec.keys[kd]; w {
					d := sel(g.get(e.st, kd), sh.rngIt.t)
					d1 := sel(g.get(S1, kd), sh.rngIt.t)
					o := g.require("termination", "the map ranged over does not grow", info.pos, e.cond, fmt.Sprintf("(forall ((kk %s)) (! (=> (select %s kk) (select %s kk)) :pattern ((select %s kk))))", g.sort(m.Key()), d, d1, d))
					_ = o
				}
			}
		}
	}
	if sh.rng != nil {
		info.auto = true
	}
}

func loopPos(l *Loop) token.Pos {
	for _, i := range l.head.Instrs {
		if i.Pos() != token.NoPos {
			return i.Pos()
		}
	}
	best := token.NoPos
	for b := range l.body {
		for _, i := range b.Instrs {
			if i.Pos() != token.NoPos && (best == token.NoPos || i.Pos() < best) {
				best = i.Pos()
			}
		}
	}
	return best
}

func (g *Gen) candObl(c *Cand, label, pos, reach, goal string) {
	f := imp(reach, goal)
	if f == "true" {
		return
	}
	o := &Oblig{id: len(g.oblig), label: label, kind: "candidate", goal: f, nfacts: len(g.facts), at: g.at, fn: g.name0, pos: pos, cand: c, entry: strings.HasPrefix(label, "loop invariant at entry")}
	g.oblig = append(g.oblig, o)
}

func (g *Gen) dryLoop(fr *Frame, l *Loop, order []*ssa.BasicBlock, S0 *State, phis []*ssa.Phi) *Recorder {
	g.dry++
	nf, at := len(g.facts), g.at
	saved := g.recs
	g.recs = append([]*Recorder{}, g.recs...)
	rec := &Recorder{keys: map[string]*KeyInfo{}, refs: map[string][]string{}, n0: g.n}
	g.recs = append(g.recs, rec)
	st := S0.clone()
	for k := range st.m {
		if g.keys[k].kind == 'L' {
			st.m[k] = g.fresh("dry", g.keys[k].sort)
		}
	}
	for _, p := range phis {
		v := &Val{t: g.fresh("dry", g.sort(p.Type())), ty: p.Type()}
		if old := fr.vals[p]; old != nil && old.clo != nil {
			v.clo = old.clo
		}
		fr.vals[p] = v
	}
	sh := &loopShape{fr: fr, l: l, phis: phis, init: map[*ssa.Phi]*Val{}, st0: S0.clone(), cur: map[*ssa.Phi]*Val{}, info: &LoopInfo{}}
	g.loopStack = append(g.loopStack, sh)
	ctl := &Control{in: map[*ssa.BasicBlock][]Edge{}, head: l.head, isHead: true}
	ctl.in[l.head] = []Edge{{nil, g.fresh("dry", "Bool"), st}}
	nd := len(fr.defers)
	g.runBlocks(fr, order, l, ctl)
	fr.defers = fr.defers[:nd]
	g.loopStack = g.loopStack[:len(g.loopStack)-1]
	g.facts, g.factAt, g.at = g.facts[:nf], g.factAt[:nf], at
	g.recs = saved
	g.dry--
	return rec
}

// invariantRefs lists the references written that were known before the loop; variant tells whether
// there are others.
func invariantRefs(refs []string, n0 int) (inv []string, variant bool) {
	seen := map[string]bool{}
	for _, r := range refs {
		if r == "fresh" || r == "" {
			variant = true
			continue
		}
		bad := false
		eachAtom(r, func(a string) {
			if i := strings.LastIndexByte(a, '!'); i >= 0 {
				var n int
				if _, err := fmt.Sscanf(a[i+1:], "%d", &n); err == nil && n > n0 {
					bad = true
				}
			}
		})
		if bad {
			variant = true
		} else if !seen[r] {
			seen[r] = true
			inv = append(inv, r)
		}
	}
	return
}

func (g *Gen) constTrip(fr *Frame, l *Loop, init map[*ssa.Phi]*Val) bool {
	last := l.head.Instrs[len(l.head.Instrs)-1]
	iff, ok := last.(*ssa.If)
	if !ok {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	n := int64(-1)
	if c, ok := cmp.Y.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
		n = c.Int64()
	} else if v := fr.vals[cmp.Y]; v != nil && isNum(v.t) && len(v.t) < 5 {
		fmt.Sscan(v.t, &n)
	}
	if n < 0 || n > 8 {
		return false
	}
	var phi *ssa.Phi
	switch x := cmp.X.(type) {
	case *ssa.Phi:
		phi = x
	case *ssa.BinOp:
		phi, _ = x.X.(*ssa.Phi)
	}
	if phi == nil || phi.Block() != l.head {
		return false
	}
	t := init[phi].t
	if !(isNum(t) || t == "(- 1)") {
		return false
	}
	// what the loop computes must not be used after it: its value depends on the iteration that leaves
	for b := range l.body {
		for _, i := range b.Instrs {
			v, ok := i.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if !l.body[r.Block()] {
					return false
				}
			}
		}
	}
	// each back edge adds one
	for k, p := range l.head.Preds {
		if !l.body[p] {
			continue
		}
		b, ok := phi.Edges[k].(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != phi {
			return false
		}
	}
	return true
}

func (g *Gen) unroll(fr *Frame, l *Loop, order []*ssa.BasicBlock, st *State, reach string, ctl *Control) {
	for it := 0; it < 12; it++ {
		nctl := &Control{in: ctl.in, head: l.head, parent: ctl, isHead: true}
		nctl.in[l.head] = []Edge{{nil, reach, st}}
		delete(fr.cache, l.head)
		for b := range l.body {
			if b != l.head {
				delete(ctl.in, b)
			}
		}
		g.unrollN = append(g.unrollN, it)
		save := fr.prefix
		g.runBlocks(fr, order, l, nctl)
		fr.prefix = save
		g.unrollN = g.unrollN[:len(g.unrollN)-1]
		back := live(nctl.back)
		if len(back) == 0 {
			return
		}
		// values of the phis for the next iteration, from the back edges
		var vals []*Val
		var cs []string
		for _, e := range back {
			cs = append(cs, e.cond)
		}
		for _, p := range headPhis(l.head) {
			vals = append(vals, g.phiVal(fr, p, l.head, back))
		}
		nst := g.mergeStates(back)
		reach = or(cs...)
		if len(back) > 1 {
			reach = g.name("r", "Bool", reach)
		}
		for i, p := range headPhis(l.head) {
			fr.vals[p] = vals[i]
		}
		st = nst
	}
	g.unsupported(nil, reach, "loop not unrolled completely")
}

// shapeOf recognises what the loop ranges over.
func (g *Gen) shapeOf(sh *loopShape, rec *Recorder) {
	l := sh.l
	for b := range l.body {
		for _, i := range b.Instrs {
			if n, ok := i.(*ssa.Next); ok && b == l.head {
				sh.rng = n.Iter.(*ssa.Range)
				sh.rngIt = sh.fr.vals[sh.rng]
			}
		}
	}
	last, ok := l.head.Instrs[len(l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	cmp, ok := last.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return
	}
	var phi *ssa.Phi
	switch x := cmp.X.(type) {
	case *ssa.Phi:
		phi = x
	case *ssa.BinOp:
		if x.Op == token.ADD {
			phi, _ = x.X.(*ssa.Phi)
		}
	}
	if phi == nil || phi.Block() != l.head {
		return
	}
	in, ok := sh.init[phi]
	if !ok || !(isNum(in.t) || in.t == "(- 1)") {
		return
	}
	start := in.t
	sh.count = func(c *LCtx) string {
		if start == "0" {
			return c.phi[phi].t
		}
		if start == "(- 1)" {
			return "(+ " + c.phi[phi].t + " 1)"
		}
		return "(- " + c.phi[phi].t + " " + start + ")"
	}
	if call, ok := cmp.Y.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			sh.overV = call.Call.Args[0]
			if v, ok := sh.fr.vals[sh.overV]; ok && !definedIn(sh.overV, l) {
				sh.over = v
			}
		}
	}
}

func definedIn(v ssa.Value, l *Loop) bool {
	i, ok := v.(ssa.Instruction)
	return ok && i.Block() != nil && i.Parent() == l.head.Parent() && l.body[i.Block()]
}

// pool: named values that candidates can talk about.
type poolVal struct {
	name string
	ty   types.Type
	f    func(c *LCtx) string
	idx  int // -1: not a phi
}

func valName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Parameter:
		return x.Name()
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Alloc:
		if x.Comment != "" {
			return x.Comment
		}
	}
	return v.Name()
}

func (g *Gen) pool(sh *loopShape) []poolVal {
	var out []poolVal
	seen := map[string]bool{}
	addv := func(name string, v *Val) {
		if v == nil || v.t == "" || v.ty == nil || v.clo != nil {
			return
		}
		if _, isT := v.ty.(*types.Tuple); isT {
			return
		}
		key := v.t
		if seen[key] || isNum(v.t) || v.t == "true" || v.t == "false" {
			return
		}
		seen[key] = true
		t := v.t
		out = append(out, poolVal{name, v.ty, func(*LCtx) string { return t }, -1})
	}
	for _, p := range sh.phis {
		p := p
		if sh.cur[p] == nil {
			continue
		}
		seen[sh.cur[p].t] = true
		out = append(out, poolVal{"phi." + valName(p), p.Type(), func(c *LCtx) string { return c.phi[p].t }, 1})
	}
	// values used in the loop (or in an inner function) but defined before it, and locals
	used := map[ssa.Value]bool{}
	var order []ssa.Value
	for _, b := range sh.fr.fn.Blocks {
		for _, i := range b.Instrs {
			for _, op := range i.Operands(nil) {
				if *op == nil || used[*op] {
					continue
				}
				used[*op] = true
				order = append(order, *op)
			}
		}
	}
	for _, v := range order {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
			continue
		}
		if definedIn(v, sh.l) {
			continue
		}
		if ins, ok := v.(ssa.Instruction); ok && !ins.Block().Dominates(sh.l.head) {
			continue
		}
		x := sh.fr.vals[v]
		if x == nil || !liveAt(v, sh.l.head) {
			continue
		}
		if x.lv != nil && x.lv.ref == "" && x.lv.key != "" && g.keys[x.lv.key].kind == 'L' && len(x.lv.path) == 0 {
			k, ty := x.lv.key, x.lv.ty
			if seen[k] || g.isFuncType(ty) {
				continue
			}
			seen[k] = true
			out = append(out, poolVal{"local." + valName(v), ty, func(c *LCtx) string { return g.get(c.st, k) }, 1})
			continue
		}
		for i, t := range x.tup {
			addv(fmt.Sprintf("%s.%d", valName(v), i), t)
		}
		addv(valName(v), x)
	}
	for _, p := range sh.fr.fn.Params {
		addv(p.Name(), sh.fr.vals[p])
	}
	// enclosing loops and functions
	for i := len(g.loopStack) - 1; i >= 0; i-- {
		o := g.loopStack[i]
		if o == sh {
			continue
		}
		for _, p := range o.phis {
			addv("outer."+valName(p), o.cur[p])
		}
	}
	for f := sh.fr.parent; f != nil; f = f.parent {
		var vs []ssa.Value
		for v := range f.vals {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			x := f.vals[v]
			if x.lv != nil && x.lv.ref == "" && x.lv.key != "" && g.keys[x.lv.key].kind == 'L' && len(x.lv.path) == 0 && !g.isFuncType(x.lv.ty) {
				k, ty := x.lv.key, x.lv.ty
				if seen[k] {
					continue
				}
				seen[k] = true
				out = append(out, poolVal{"up.local." + valName(v), ty, func(c *LCtx) string { return g.get(c.st, k) }, 1})
				continue
			}
			addv("up."+valName(v), x)
		}
	}
	return out
}

// liveAt: may the value be used after block b is reached, before it is computed again?
func liveAt(v ssa.Value, b *ssa.BasicBlock) bool {
	ins, ok := v.(ssa.Instruction)
	if !ok || v.Referrers() == nil {
		return true
	}
	use := map[*ssa.BasicBlock]bool{}
	for _, r := range *v.Referrers() {
		if p, ok := r.(*ssa.Phi); ok {
			for i, e := range p.Edges {
				if e == v {
					use[p.Block().Preds[i]] = true
				}
			}
			continue
		}
		use[r.Block()] = true
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		if use[b] {
			return true
		}
		for _, s := range b.Succs {
			if s != ins.Block() && walk(s) {
				return true
			}
		}
		return false
	}
	return walk(b)
}

func (g *Gen) autoCands(sh *loopShape, rec *Recorder, S0, S1 *State, add func(string, candFn)) {
	pool := g.pool(sh)
	ak := g.keyAlloc()
	allocPre := g.get(S0, ak)
	// integers
	for _, p := range pool {
		if p.idx < 0 || g.sort(p.ty) != "Int" {
			continue
		}
		if b, ok := p.ty.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		p := p
		in := p.f(&LCtx{S0, sh.init})
		add("lower "+p.name, func(c *LCtx) string { return "(<= " + in + " " + p.f(c) + ")" })
		add("upper "+p.name, func(c *LCtx) string { return "(>= " + in + " " + p.f(c) + ")" })
		for _, q := range pool {
			if q.idx >= 0 && !strings.HasPrefix(q.name, "phi.") {
				continue
			}
			q := q
			switch g.sort(q.ty) {
			case "Slice":
				add("bound "+p.name+" len "+q.name, func(c *LCtx) string { return "(<= " + p.f(c) + " (slength " + q.f(c) + "))" })
				if in == "(- 1)" {
					add("bound "+p.name+" <len "+q.name, func(c *LCtx) string {
						return or("(< "+p.f(c)+" (slength "+q.f(c)+"))", "(= "+p.f(c)+" (- 1))")
					})
				}
			case "Str":
				add("bound "+p.name+" slen "+q.name, func(c *LCtx) string { return "(<= " + p.f(c) + " (slen " + q.f(c) + "))" })
			}
		}
		if sh.overV != nil {
			if call := sh.l.head.Instrs[len(sh.l.head.Instrs)-1].(*ssa.If).Cond.(*ssa.BinOp).Y; !definedIn(call, sh.l) {
				if v := sh.fr.vals[call]; v != nil {
					t := v.t
					add("bound "+p.name+" limit", func(c *LCtx) string { return or("(< "+p.f(c)+" "+t+")", "(= "+p.f(c)+" "+in+")") })
					add("bound "+p.name+" limit=", func(c *LCtx) string { return "(<= " + p.f(c) + " " + t + ")" })
				}
			}
		}
	}
	// slices that grow
	var growing []poolVal
	for _, p := range pool {
		if p.idx < 0 || g.sort(p.ty) != "Slice" {
			continue
		}
		p := p
		growing = append(growing, p)
		in := p.f(&LCtx{S0, sh.init})
		add("grows "+p.name, func(c *LCtx) string { return "(<= (slength " + in + ") (slength " + p.f(c) + "))" })
		add("offset "+p.name, func(c *LCtx) string { return "(= (soff " + in + ") (soff " + p.f(c) + "))" })
		add("base "+p.name, func(c *LCtx) string {
			return or("(= (sbase "+p.f(c)+") (sbase "+in+"))", "(>= (sbase "+p.f(c)+") "+allocPre+")")
		})
		add("fresh "+p.name, func(c *LCtx) string {
			return or("(= (sbase "+p.f(c)+") 0)", "(>= (sbase "+p.f(c)+") "+g.a0()+")")
		})
	}
	// frames
	for _, k := range sortedKeys(rec.keys) {
		ki := rec.keys[k]
		switch ki.kind {
		case 'H', 'C', 'E', 'D', 'V', 'G':
		default:
			continue
		}
		k := k
		pre := g.get(S0, k)
		inv, _ := invariantRefs(rec.refs[k], rec.n0)
		fr := func(ex []string, alloc string, base string) candFn {
			return func(c *LCtx) string {
				cond := "(oldref r " + alloc + ")"
				var es []string
				for _, e := range ex {
					es = append(es, "(= r "+e+")")
				}
				if len(es) > 0 {
					cond = and(cond, not(or(es...)))
				}
				cur := g.get(c.st, k)
				if cur == base {
					return "true"
				}
				return fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", cond, cur, base, cur)
			}
		}
		if len(inv) > 0 {
			add("frame except "+k, fr(inv, allocPre, pre))
		}
		var bs []string
		if ki.kind == 'E' {
			for _, p := range growing {
				if s, ok := p.ty.Underlying().(*types.Slice); ok && g.keyElem(s.Elem()) == k {
					bs = append(bs, "(sbase "+p.f(&LCtx{S0, sh.init})+")")
				}
			}
		}
		if len(bs) > 0 {
			add("frame growing "+k, fr(append(append([]string{}, inv...), bs...), allocPre, pre))
		}
		add("frame all "+k, fr(nil, allocPre, pre))
		if g.entry != nil {
			var as []string
			for _, a := range g.assigned {
				if a.key == k {
					as = append(as, a.ref)
				}
			}
			add("frame entry "+k, fr(as, g.a0(), g.get(newState(), k)))
		}
	}
	// map iteration
	if sh.rng != nil {
		if m, ok := sh.rng.X.Type().Underlying().(*types.Map); ok {
			ik := "I:" + sh.fr.prefix + sh.rng.Name()
			kd := g.keyDom(m)
			add("visited", func(c *LCtx) string {
				v := g.get(c.st, ik)
				return fmt.Sprintf("(forall ((kk %s)) (! (=> (select %s kk) (select (select %s %s) kk)) :pattern ((select %s kk))))", g.sort(m.Key()), v, g.get(c.st, kd), sh.rngIt.t, v)
			})
		} else {
			ik := "I:" + sh.fr.prefix + sh.rng.Name()
			add("string position", func(c *LCtx) string {
				return and("(<= 0 "+g.get(c.st, ik)+")", "(<= "+g.get(c.st, ik)+" (slen "+sh.rngIt.t+"))")
			})
		}
	}
}

func (g *Gen) tmplMatches(t *Template) bool {
	if t.fn == g.conKey {
		return true
	}
	return strings.HasSuffix(t.fn, ".ALL") && strings.HasPrefix(g.conKey, strings.TrimSuffix(t.fn, "ALL"))
}

// bindings enumerates the ways to bind the binders of a template.
func (g *Gen) bindings(t *Template, sh *loopShape, yield func(name string, mk func(c *LCtx) map[string]TV)) {
	type opt struct {
		name string
		loop int // 1 + distance of the loop
		f    func(c *LCtx) []TV
	}
	pool := g.pool(sh)
	var opts [][]opt
	for _, b := range t.binders {
		var os []opt
		ty := g.resolveType(b.typ, t.pkg)
		switch b.kind {
		case "var":
			for _, p := range pool {
				if types.Identical(p.ty, ty) {
					p := p
					os = append(os, opt{p.name, 0, func(c *LCtx) []TV { return []TV{{p.f(c), p.ty}} }})
				}
			}
		case "phi":
			for _, p := range sh.phis {
				if types.Identical(p.Type(), ty) {
					p := p
					os = append(os, opt{"phi." + valName(p), 0, func(c *LCtx) []TV { return []TV{{c.phi[p].t, ty}} }})
				}
			}
		case "prior":
			// a variable of the loop, and its value before the loop or in an enclosing one
			for _, p := range sh.phis {
				if !types.Identical(p.Type(), ty) {
					continue
				}
				p := p
				init, st0 := sh.init[p], sh.st0
				for i := len(g.loopStack) - 1; i >= 0 && init != nil; i-- {
					v := init.t
					elems := TV{sel(g.get(st0, g.keyElem(ty.Underlying().(*types.Slice).Elem())), "(sbase "+v+")"), &ArrT{tInt, ty.Underlying().(*types.Slice).Elem()}}
					os = append(os, opt{fmt.Sprintf("phi.%s,prior%d", valName(p), len(g.loopStack)-1-i), 0, func(c *LCtx) []TV { return []TV{{c.phi[p].t, ty}, {v, ty}, elems} }})
					init = nil
					if i > 0 {
						for q, x := range g.loopStack[i-1].cur {
							if x.t == v {
								init, st0 = g.loopStack[i-1].init[q], g.loopStack[i-1].st0
							}
						}
					}
				}
			}
		case "param":
			for i, p := range g.fn.Params {
				if types.Identical(p.Type(), ty) {
					v := g.params[i]
					os = append(os, opt{p.Name(), 0, func(c *LCtx) []TV { return []TV{v} }})
				}
			}
		case "over":
			for i := len(g.loopStack) - 1; i >= 0; i-- {
				o := g.loopStack[i]
				if o.count == nil || o.over == nil || !types.Identical(o.over.ty.Underlying(), ty.Underlying()) {
					continue
				}
				o2 := o
				os = append(os, opt{fmt.Sprintf("loop%d", len(g.loopStack)-1-i), len(g.loopStack) - i, func(c *LCtx) []TV {
					cc := c
					if o2 != sh {
						cc = &LCtx{c.st, o2.cur}
					}
					return []TV{{o2.count(cc), tInt}, {o2.over.t, o2.over.ty}}
				}})
			}
		case "visited":
			for i := len(g.loopStack) - 1; i >= 0; i-- {
				o := g.loopStack[i]
				if o.rng == nil || !types.Identical(o.rng.X.Type().Underlying(), ty.Underlying()) {
					continue
				}
				o2 := o
				m := ty.Underlying().(*types.Map)
				os = append(os, opt{fmt.Sprintf("loop%d", len(g.loopStack)-1-i), len(g.loopStack) - i, func(c *LCtx) []TV {
					return []TV{{g.get(c.st, "I:"+o2.fr.prefix+o2.rng.Name()), &SetT{m.Key()}}, {o2.rngIt.t, o2.rng.X.Type()}}
				}})
			}
		}
		opts = append(opts, os)
	}
	n := 0
	var rec func(i int, chosen []opt)
	rec = func(i int, chosen []opt) {
		if n >= 80 {
			return
		}
		if i == len(opts) {
			n++
			cs := append([]opt{}, chosen...)
			var nm []string
			for _, c := range cs {
				nm = append(nm, c.name)
			}
			yield(strings.Join(nm, ","), func(c *LCtx) map[string]TV {
				m := map[string]TV{}
				for j, o := range cs {
					vs := o.f(c)
					for k, v := range vs {
						if k < len(t.binders[j].names) {
							m[t.binders[j].names[k]] = v
						}
					}
				}
				return m
			})
			return
		}
		for _, o := range opts[i] {
			// two binders of the same type get different values; enclosing loops are listed innermost first
			dup := false
			for j, c := range chosen {
				if o.loop > 0 && c.loop >= o.loop {
					dup = true
				}
				if c.name == o.name && t.binders[j].kind == t.binders[i].kind && (t.binders[i].kind == "var" || t.binders[i].kind == "param") {
					dup = true
				}
			}
			if !dup {
				rec(i+1, append(chosen, o))
			}
		}
	}
	rec(0, nil)
}

func (g *Gen) templateCands(sh *loopShape, add func(string, candFn)) {
	for _, t := range g.sp.templates {
		if !g.tmplMatches(t) {
			continue
		}
		t := t
		g.bindings(t, sh, func(name string, mk func(c *LCtx) map[string]TV) {
			add(t.name+"("+name+")", func(c *LCtx) string {
				e := g.entryEnv.with(mk(c))
				e.st = c.st
				e.pkg = t.pkg
				return e.bool(t.e)
			})
		})
	}
}

func (g *Gen) templateMeasures(sh *loopShape, add func(string, func(c *LCtx) []string)) {
	for _, t := range g.sp.measures {
		if !g.tmplMatches(t) {
			continue
		}
		t := t
		g.bindings(t, sh, func(name string, mk func(c *LCtx) map[string]TV) {
			add(t.name+"("+name+")", func(c *LCtx) []string {
				e := g.entryEnv.with(mk(c))
				e.st = c.st
				e.pkg = t.pkg
				var out []string
				if t.e.op == "call" && t.e.name == "lex" {
					for _, a := range t.e.args {
						out = append(out, e.int(a))
					}
				} else {
					out = []string{e.int(t.e)}
				}
				return out
			})
		})
	}
}

func (g *Gen) autoMeasures(sh *loopShape, add func(string, func(c *LCtx) []string)) {
	if sh.rng != nil {
		return
	}
	last, ok := sh.l.head.Instrs[len(sh.l.head.Instrs)-1].(*ssa.If)
	if !ok {
		return
	}
	cmp, ok := last.Cond.(*ssa.BinOp)
	if !ok {
		return
	}
	if sh.count != nil && !definedIn(cmp.Y, sh.l) {
		lim := g.val(sh.fr, nil, cmp.Y)
		if lim.t != "" {
			add("limit", func(c *LCtx) []string { return []string{"(- " + lim.t + " " + sh.count(c) + ")"} })
		}
	}
	pool := g.pool(sh)
	for _, p := range pool {
		if p.idx < 0 || g.sort(p.ty) != "Int" {
			continue
		}
		p := p
		for _, q := range pool {
			q := q
			switch g.sort(q.ty) {
			case "Slice":
				add("len "+q.name+" - "+p.name, func(c *LCtx) []string { return []string{"(- (slength " + q.f(c) + ") " + p.f(c) + ")"} })
			case "Str":
				add("slen "+q.name+" - "+p.name, func(c *LCtx) []string { return []string{"(- (slen " + q.f(c) + ") " + p.f(c) + ")"} })
			}
		}
		add("down "+p.name, func(c *LCtx) []string { return []string{p.f(c)} })
	}
}

// With GOVC_TEMPLATES set, the templates are tried besides the hints.
var (
	allTemplates = os.Getenv("GOVC_TEMPLATES")
	templateName = regexp.MustCompile(`^t[0-9a-f]{8}\(`)
)
