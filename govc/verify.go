package main

// Verification of one function against one contract.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (g *Gen) invOf(m map[string]*InvDecl, t types.Type, term string, st *State) string {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	var fs []string
	for d := m[n.Obj().Pkg().Name()+"."+n.Obj().Name()]; d != nil; d = d.next {
		e := &Env{g: g, names: map[string]TV{d.v: {term, t}}, st: st, old: st, pkg: d.pkg}
		fs = append(fs, e.bool(d.e))
	}
	if len(fs) == 0 {
		return ""
	}
	return and(fs...)
}

func (g *Gen) typeInv(t types.Type, term string, st *State) string {
	return g.invOf(g.sp.typeinv, t, term, st)
}
func (g *Gen) treeInv(t types.Type, term string, st *State) string {
	return g.invOf(g.sp.treeinv, t, term, st)
}
func (g *Gen) elemInv(t types.Type, term string, st *State) string {
	return g.invOf(g.sp.eleminv, t, term, st)
}

// job: verify fn against the contract filed under key.
type job struct {
	fn  *ssa.Function
	key string // contract key
	con *Contract
}

func (j job) name() string {
	k := fnKey(j.fn)
	if j.key != k {
		return k + " as " + j.key
	}
	return k
}

func elabAxioms(g *Gen, upto *AxiomDecl) {
	for _, a := range g.sp.axioms {
		if a == upto {
			break
		}
		if a.local && upto == nil {
			continue
		}
		if a.lemma && a.e.op == "forall" && len(a.e.trig) == 0 {
			continue // a property by itself; it is not used in proofs
		}
		e := &Env{g: g, names: map[string]TV{}, pkg: a.pkg, st: newState(), old: newState()}
		g.axioms = append(g.axioms, axiomT{a.name, e.bool(a.e), a.lemma})
	}
}

// heapDefs defines the functions of the memory, for the memory at entry and arguments that existed then.
func heapDefs(g *Gen, a0 string) {
	for _, n := range g.sp.pureOrder {
		p := g.sp.pures[n]
		if p.def == nil {
			continue
		}
		e := &Env{g: g, names: map[string]TV{}, pkg: p.pkg, st: newState(), old: newState()}
		ep := g.get(newState(), g.keyEpoch())
		names := map[string]TV{}
		ts := []string{ep}
		var bs, guard []string
		for i, b := range p.params {
			t := g.resolveType(b.typ, p.pkg)
			if i == 0 {
				names[b.name] = TV{ep, t}
				continue
			}
			g.inst++
			v := fmt.Sprintf("%s_%d", b.name, g.inst)
			names[b.name] = TV{v, t}
			ts = append(ts, v)
			bs = append(bs, "("+v+" "+g.sort(t)+")")
			guard = append(guard, g.wf(t, v, a0)...)
		}
		ne := e.with(names)
		d := ne.expr(p.def)
		app := "(" + g.pureFn(p) + " " + strings.Join(ts, " ") + ")"
		rt := g.resolveType(p.res, p.pkg)
		d = ne.coerce(p.def, d, rt)
		pats := ":pattern (" + app + ")"
		if strings.HasPrefix(d.t, "(mem") { // membership leads to the function that names it, too
			pats += " :pattern (" + d.t + ")"
		}
		g.axioms = append(g.axioms, axiomT{"definition of " + p.name, fmt.Sprintf("(forall (%s) (! (=> %s %s) %s))", strings.Join(bs, " "), and(guard...), and(append([]string{"(= " + app + " " + d.t + ")"}, g.wf(rt, app, a0)...)...), pats), false})
	}
}

func (c *Ctx) generate(j job, hints map[string]bool, hintMode, total bool) (g *Gen, err error) {
	g = newGen(c)
	g.total = total
	g.hints, g.hintMode = hints, hintMode
	g.fn = j.fn
	g.con = j.con
	g.conKey = j.key
	g.name0 = j.name()
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(elabErr); ok {
				err = fmt.Errorf("%s", ee.msg)
				return
			}
			panic(r)
		}
	}()
	if j.con == nil {
		g.con = &Contract{key: j.key, pkg: &SpecPkg{name: strings.SplitN(j.key, ".", 2)[0]}}
	}
	if (&Ctx{}).sp == nil && g.con.pkg.name == "" {
		g.con.pkg.name = strings.SplitN(j.key, ".", 2)[0]
	}
	elabAxioms(g, nil)
	fn := j.fn
	g.entry = newState()
	ak := g.keyAlloc()
	a0 := g.get(g.entry, ak)
	heapDefs(g, a0)
	st := newState()
	fr := &Frame{fn: fn, vals: map[ssa.Value]*Val{}, dstate: map[*ssa.Defer]string{}}
	var args []TV
	for i, p := range fn.Params {
		t := g.fresh("p_"+sanitize(p.Name()), g.sort(p.Type()))
		for _, f := range g.wf(p.Type(), t, a0) {
			g.fact(f)
		}
		fr.vals[p] = &Val{t: t, ty: p.Type()}
		g.params = append(g.params, TV{t, p.Type()})
		a := TV{t, p.Type()}
		if i == 0 && fn.Signature.Recv() != nil && j.key != fnKey(fn) {
			// contract of an interface method: its receiver is the interface value
			if it := c.ifaceByKey[j.key]; it != nil {
				a = TV{g.name("recv", "Val", g.box(p.Type(), t)), it.t}
				g.fact("(< (valalloc " + a.t + ") " + a0 + ")")
				if _, ok := p.Type().Underlying().(*types.Pointer); ok {
					g.valref()
					g.fact("(= (valref " + a.t + ") " + t + ")")
					g.fact(not("(= " + t + " 0)"))
				}
			}
		}
		args = append(args, a)
		if i == 0 && fn.Signature.Recv() != nil {
			if f := g.typeInv(p.Type(), t, st); f != "" {
				g.fact(f)
			}
			if f := g.treeInv(p.Type(), t, st); f != "" {
				g.fact(f)
				g.treeUsed[typeName(p.Type())] = true
			}
		}
	}
	for _, p := range fn.FreeVars {
		t := g.fresh("fv_"+sanitize(p.Name()), g.sort(p.Type()))
		for _, f := range g.wf(p.Type(), t, a0) {
			g.fact(f)
		}
		fr.vals[p] = &Val{t: t, ty: p.Type()}
	}
	if fn.Name() == "init" && fn.Synthetic != "" { // runs once
		k := g.regKey("X:"+fn.Pkg.Pkg.Name()+".init$guard", "Bool", 'X', tBool, nil)
		g.fact(not(g.get(newState(), k)))
	}
	env := g.envFor(g.con, fn.Signature, args, newState(), newState())
	g.entryEnv = env
	g.assigned = g.assignRefs(env, g.con)
	for _, c := range g.con.requires {
		g.fact(env.bool(c.e))
	}
	for _, c := range g.con.assumes {
		g.fact(env.bool(c.e))
	}
	if g.con.det && !g.con.extern {
		if why := g.detCheck(fn, map[*ssa.Function]bool{}); why != "" {
			g.require("determinism", "the result depends on the arguments only: "+why, g.posOf(fn.Pos()), "true", "false")
		}
		if len(g.assigned) > 0 {
			g.require("determinism", "a deterministic function writes nothing", g.posOf(fn.Pos()), "true", "false")
		}
	}
	if g.con.trusted {
		return g, nil
	}
	if d := g.sp.props[g.prop]; d != nil && d.concurrent {
		for _, x := range g.con.sharedLocs {
			e := *g.con
			e.assigns = []*Expr{x}
			g.conc = append(g.conc, g.assignRefs(env, &e)...)
		}
		g.fact("(= " + g.get(st, g.keyHeld()) + " ((as const (Array Int Bool)) false))")
		g.interfere(st, "true")
	}
	exits := g.runFn(fr, st, "true")
	for _, ex := range exits {
		if ex.cond == "false" {
			continue
		}
		g.exitReach = append(g.exitReach, ex.cond)
		g.at = ex.blk
		if len(g.conc) > 0 {
			g.require("lock", "no lock is held at the end", g.posOf(ex.pos), ex.cond, "(= "+g.get(ex.st, g.keyHeld())+" ((as const (Array Int Bool)) false))")
			g.interfere(ex.st, ex.cond)
		}
		pe := g.envFor(g.con, fn.Signature, args, ex.st, newState())
		bindResults(pe, g.con, ex.res)
		for k, c := range g.con.ensures {
			if !g.wantClause(c) {
				continue
			}
			g.emitGoal("postcondition", fmt.Sprintf("postcondition %s", clauseName(c, k)), g.posOf(ex.pos), ex.cond, pe, c.e)
		}
		if g.con.det && len(ex.res) > 0 {
			_ = ex
		}
	}
	g.at = nil
	for n, t := range g.ifaces {
		// interface satisfaction of the dynamic types seen
		it := t.Underlying().(*types.Interface)
		for i, ty := range g.tagTyp {
			if types.Implements(ty, it) {
				g.decl(n+fmt.Sprint(i), fmt.Sprintf("(assert (%s %d))", n, i+1))
			} else {
				g.decl(n+fmt.Sprint(i), fmt.Sprintf("(assert (not (%s %d)))", n, i+1))
			}
		}
	}
	return g, nil
}

// detCheck looks for sources of non-determinism in a function and its callees.
func (g *Gen) detCheck(fn *ssa.Function, seen map[*ssa.Function]bool) string {
	if seen[fn] {
		return ""
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Range:
				if _, ok := i.X.Type().Underlying().(*types.Map); ok {
					return "iteration over a map in " + fnKey(fn)
				}
			case *ssa.Select, *ssa.Go, *ssa.Send:
				return "concurrency in " + fnKey(fn)
			case *ssa.Convert:
				if b, ok := i.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.UnsafePointer || b.Kind() == types.Uintptr) {
					return "unsafe conversion in " + fnKey(fn)
				}
			case *ssa.UnOp:
				if i.Op.String() == "<-" {
					return "concurrency in " + fnKey(fn)
				}
				if gl, ok := i.X.(*ssa.Global); ok && g.globalWritten(gl) {
					return "variable " + gl.Name()
				}
			case *ssa.MakeClosure:
				if w := g.detCheck(i.Fn.(*ssa.Function), seen); w != "" {
					return w
				}
			case ssa.CallInstruction:
				c := i.Common()
				if _, ok := c.Value.(*ssa.Builtin); ok {
					continue
				}
				if c.IsInvoke() {
					k := ifaceKey(c.Value.Type(), c.Method.Name())
					if con := g.sp.contracts[k]; con != nil && con.extern {
						if !con.det {
							return "call of " + k
						}
						g.exts[k] = true
						continue
					}
					for _, f := range g.implementors(c.Value.Type(), c.Method.Name()) {
						if w := g.detCheck(f, seen); w != "" {
							return w
						}
					}
					continue
				}
				f := c.StaticCallee()
				if f == nil {
					continue
				}
				k := fnKey(f)
				switch k {
				case "slices.Contains", "slices.Sort", "slices.Compact", "sort.Strings", "slices.Clone", "slices.Replace", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
					continue
				}
				if con := g.sp.contracts[k]; con != nil && con.extern && con.det {
					g.exts[k] = true
					continue
				}
				if g.inRepo(f) || f.Synthetic != "" && g.sp.contracts[k] == nil && len(f.Blocks) > 0 {
					if w := g.detCheck(f, seen); w != "" {
						return w
					}
					continue
				}
				if con := g.sp.contracts[k]; con == nil || !con.det {
					return "call of " + k
				}
				g.exts[k] = true
			}
		}
	}
	return ""
}

// globalWritten: is the package variable assigned anywhere but in the package initialiser?
func (c *Ctx) globalWritten(v *ssa.Global) bool {
	for _, f := range c.byKey {
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok && s.Addr == v {
					return true
				}
			}
		}
	}
	return false
}

// lemmaGen generates the proof obligation of a lemma.
func (c *Ctx) lemmaGen(a *AxiomDecl) (g *Gen, err error) {
	g = newGen(c)
	g.name0 = "lemma " + a.name
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(elabErr); ok {
				err = fmt.Errorf("%s", ee.msg)
				return
			}
			panic(r)
		}
	}()
	elabAxioms(g, a)
	e := &Env{g: g, names: map[string]TV{}, pkg: a.pkg, st: newState(), old: newState()}
	x := a.e
	if a.uses != nil && x.op == "forall" { // proof by induction on a number (>= 0)
		names, hn := map[string]TV{}, map[string]TV{}
		var bs []string
		for _, b := range x.vars {
			t := g.resolveType(b.typ, a.pkg)
			names[b.name] = TV{g.fresh("sk_"+b.name, g.sort(t)), t}
			hn[b.name] = TV{"ih_" + b.name, t}
			bs = append(bs, "(ih_"+b.name+" "+g.sort(t)+")")
		}
		ne, he := e.with(names), e.with(hn)
		n, m := ne.expr(a.uses).t, he.expr(a.uses).t
		// induction hypothesis: the lemma wherever the number is smaller
		body := he.bool(x.args[0])
		pat := ""
		for _, tr := range x.trig {
			var ts []string
			for _, t := range tr {
				ts = append(ts, he.expr(t).t)
			}
			pat += " :pattern (" + strings.Join(ts, " ") + ")"
		}
		ih := "(=> (and (<= 0 " + m + ") (< " + m + " " + n + ")) " + body + ")"
		if pat != "" {
			ih = "(! " + ih + pat + ")"
		}
		g.fact("(forall (" + strings.Join(bs, " ") + ") " + ih + ")")
		g.hintTerms(ne, a.hints)
		g.require("lemma", "lemma "+a.name+" (below the induction base)", "", "(< "+n+" 0)", ne.bool(x.args[0]))
		g.require("lemma", "lemma "+a.name, "", "(<= 0 "+n+")", ne.bool(x.args[0]))
		return g, nil
	}
	if len(a.hints) > 0 && x.op == "forall" {
		names := map[string]TV{}
		for _, b := range x.vars {
			t := g.resolveType(b.typ, a.pkg)
			names[b.name] = TV{g.fresh("sk_"+b.name, g.sort(t)), t}
		}
		ne := e.with(names)
		g.hintTerms(ne, a.hints)
		g.require("lemma", "lemma "+a.name, "", "true", ne.bool(x.args[0]))
		return g, nil
	}
	g.require("lemma", "lemma "+a.name, "", "true", e.bool(a.e))
	return g, nil
}

// hintTerms makes the terms known to the solver.
func (g *Gen) hintTerms(e *Env, hints []*Expr) {
	for _, h := range hints {
		v := e.expr(h)
		so := g.sort(v.ty)
		n := "hint_" + sanitize(so)
		g.decl(n, "(declare-fun "+n+" ("+so+") Int)")
		g.fact("(= (" + n + " " + v.t + ") 0)")
	}
}

func sortedSet(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
