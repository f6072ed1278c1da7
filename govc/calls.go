package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fnKey is the name under which the contract of a function is filed.
func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Name()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Name()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if d := deref(t); d != nil {
			t = d
		}
		n := "?"
		if nt, ok := t.(*types.Named); ok {
			n = nt.Obj().Name()
			if nt.Obj().Pkg() != nil {
				pkg = nt.Obj().Pkg().Name()
			}
		}
		return pkg + ".(" + n + ")." + f.Name()
	}
	if f.Parent() != nil {
		return fnKey(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	return pkg + "." + f.Name()
}

func (c *Ctx) inRepo(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Parent() != nil {
		return c.inRepo(f.Parent())
	}
	if f.Pkg != nil {
		return c.pkgPath[f.Pkg.Pkg.Path()]
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return c.pkgPath[f.Object().Pkg().Path()]
	}
	return false
}

func (g *Gen) doCall(fr *Frame, i *ssa.Call, st *State, reach string) string {
	return g.callCommon(fr, i, &i.Call, i, st, reach)
}

func (g *Gen) result(i ssa.Value, res []*Val) *Val {
	if len(res) == 1 {
		return res[0]
	}
	return &Val{ty: i.Type(), tup: res}
}

func (g *Gen) callCommon(fr *Frame, in ssa.Instruction, c *ssa.CallCommon, v ssa.Value, st *State, reach string) string {
	bind := func(res []*Val) {
		call, ok := v.(*ssa.Call)
		if !ok {
			return
		}
		fr.vals[call] = g.result(call, res)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		g.builtin(fr, in, b, c, v, st, reach)
		return reach
	}
	var args []*Val
	if c.IsInvoke() {
		r := g.val(fr, st, c.Value)
		rt := g.valTerm(r, c.Value, reach)
		g.require("nil", "interface is not nil in call of "+c.Method.Name(), g.posOf(in.Pos()), reach, not("(= "+rt+" nilval)"))
		args = append(args, &Val{t: rt, ty: c.Value.Type()})
		for _, a := range c.Args {
			x := g.val(fr, st, a)
			if x.clo == nil {
				g.valTerm(x, a, reach)
			}
			args = append(args, x)
		}
		key := ifaceKey(c.Value.Type(), c.Method.Name())
		con := g.sp.contracts[key]
		if con == nil {
			g.unsupported(in, reach, "call of interface method without contract: "+key)
			bind(g.havocRes(c.Signature(), st))
			return reach
		}
		g.calls[key] = true
		bind(g.applyContract(fr, in, con, key, c.Signature(), args, st, reach, g.ifaceMods(key, c)))
		return reach
	}
	var fn *ssa.Function
	var binds []*Val
	if f := c.StaticCallee(); f != nil {
		fn = f
		if f.Name() == "init" && f.Synthetic != "" && isInit(g.fn) && f.Pkg != g.fn.Pkg {
			// initialisation of an imported package; it cannot reach the variables of this one
			g.exts["initialisation of imported packages"] = true
			return reach
		}
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			cv := g.val(fr, st, mc)
			if cv.clo != nil {
				binds = cv.clo.binds
			}
		}
	} else {
		cv := g.val(fr, st, c.Value)
		if cv.clo != nil {
			fn, binds = cv.clo.fn, cv.clo.binds
		}
	}
	for _, a := range c.Args {
		x := g.val(fr, st, a)
		if x.clo == nil {
			g.valTerm(x, a, reach)
		}
		args = append(args, x)
	}
	if fn == nil {
		g.unsupported(in, reach, "call of an unknown function value")
		bind(g.havocRes(c.Signature(), st))
		return reach
	}
	key := fnKey(fn)
	if g.lockOp(in, key, args, st, reach) {
		bind(nil)
		return reach
	}
	if g.special(fr, in, key, fn, args, c, st, reach, bind) {
		return reach
	}
	con := g.sp.contracts[key]
	if con != nil && g.inlineOnly[key] && g.inRepo(fn) {
		con = nil
	}
	if con != nil {
		g.calls[key] = true
		mods := map[string]*KeyInfo{}
		if !con.extern {
			mods = g.modset(fn)
		}
		if con.extern {
			g.interfere(st, reach)
		}
		bind(g.applyContract(fr, in, con, key, fn.Signature, args, st, reach, mods))
		if con.extern && len(con.assigns) > 0 {
			g.guarantee(st, reach, key, g.posOf(in.Pos()))
		}
		return reach
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && !g.inRepo(fn) {
		// wrappers are inlined
	} else if !g.inRepo(fn) {
		g.unsupported(in, reach, "call of "+key+", which has no contract")
		bind(g.havocRes(fn.Signature, st))
		return reach
	}
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			g.unsupported(in, reach, "recursive function without contract: "+key)
			bind(g.havocRes(fn.Signature, st))
			return reach
		}
	}
	if fr.depth > 12 {
		g.unsupported(in, reach, "inlining too deep at "+key)
		bind(g.havocRes(fn.Signature, st))
		return reach
	}
	g.inlined[key] = true
	res, nst, nreach := g.inline(fr, in, fn, binds, args, st, reach)
	if nst != nil {
		st.m = nst.m
	}
	bind(res)
	return nreach
}

func ifaceKey(t types.Type, m string) string {
	n, ok := t.(*types.Named)
	if !ok {
		return "?." + m
	}
	if n.Obj().Pkg() == nil {
		return "builtin.(" + n.Obj().Name() + ")." + m
	}
	return n.Obj().Pkg().Name() + ".(" + n.Obj().Name() + ")." + m
}

func (g *Gen) havocRes(sig *types.Signature, st *State) []*Val {
	var out []*Val
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		c := g.fresh("res", g.sort(t))
		for _, f := range g.wf(t, c, g.get(st, g.keyAlloc())) {
			g.fact(f)
		}
		out = append(out, &Val{t: c, ty: t})
	}
	return out
}

// inline executes a callee in place.
func (g *Gen) inline(fr *Frame, in ssa.Instruction, fn *ssa.Function, binds, args []*Val, st *State, reach string) ([]*Val, *State, string) {
	g.nInl++
	id := fmt.Sprintf("%d", instrIndex(in))
	nf := &Frame{fn: fn, vals: map[ssa.Value]*Val{}, prefix: fr.prefix + id + "/", path: fmt.Sprintf("%s%s~%d/", fr.path, fnKey(fn), callNo(in, fn)), parent: fr, depth: fr.depth + 1, dstate: map[*ssa.Defer]string{}, binds: binds}
	for i, p := range fn.Params {
		if i < len(args) {
			a := *args[i]
			a.ty = p.Type()
			nf.vals[p] = &a
		}
	}
	for i, f := range fn.FreeVars {
		if i < len(binds) {
			nf.vals[f] = binds[i]
		}
	}
	exits := g.runFn(nf, st.clone(), reach)
	var edges []Edge
	var live []Exit
	for _, e := range exits {
		if e.cond != "false" {
			edges = append(edges, Edge{nil, e.cond, e.st})
			live = append(live, e)
		}
	}
	nr := fn.Signature.Results().Len()
	if len(live) == 0 {
		return g.havocRes(fn.Signature, st), nil, "false"
	}
	var cs []string
	for _, e := range live {
		cs = append(cs, e.cond)
	}
	nreach := or(cs...)
	if len(live) > 1 {
		nreach = g.name("r", "Bool", nreach)
	}
	out := g.mergeStates(edges)
	var res []*Val
	for k := 0; k < nr; k++ {
		last := live[len(live)-1].res[k]
		if len(live) == 1 {
			res = append(res, last)
			continue
		}
		t := last.t
		for i := len(live) - 2; i >= 0; i-- {
			t = ite(live[i].cond, live[i].res[k].t, t)
		}
		ty := fn.Signature.Results().At(k).Type()
		res = append(res, &Val{t: g.name("ret", g.sort(ty), t), ty: ty})
	}
	return res, out, nreach
}

func instrIndex(in ssa.Instruction) int {
	n := 0
	for _, b := range in.Parent().Blocks {
		for _, i := range b.Instrs {
			if i == in {
				return n
			}
			n++
		}
	}
	return -1
}

// --- contracts at calls ------------------------------------------------------

func (g *Gen) envFor(con *Contract, sig *types.Signature, args []TV, st, old *State) *Env {
	e := &Env{g: g, names: map[string]TV{}, st: st, old: old, pkg: con.pkg}
	if len(con.params) > len(args) {
		panic(elabErr{fmt.Sprintf("%s:%d: contract of %s names %d parameters, the function has %d", con.file, con.line, con.key, len(con.params), len(args))})
	}
	for i, n := range con.params {
		e.names[n] = args[i]
	}
	return e
}

func (g *Gen) wantClause(c Clause) bool {
	if c.name == "" {
		return true
	}
	fs := strings.Fields(c.name)
	tagged := false
	for _, f := range fs {
		if len(f) == 3 && f[0] == 'C' && f[1] >= '0' && f[1] <= '9' {
			tagged = true
			if f == g.prop {
				return true
			}
		}
	}
	return !tagged || g.prop == ""
}

func (g *Gen) assignRefs(e *Env, con *Contract) []assign {
	var out []assign
	for _, a := range con.assigns {
		switch {
		case a.op == "id" && a.name == "nothing":
		case a.op == "call" && a.name == "contents":
			v := e.expr(a.args[0])
			switch u := v.ty.Underlying().(type) {
			case *types.Map:
				out = append(out, assign{g.keyDom(u), v.t}, assign{g.keyVal(u), v.t})
			case *types.Slice:
				out = append(out, assign{g.keyElem(u.Elem()), "(sbase " + v.t + ")"})
			case *types.Pointer:
				out = append(out, assign{g.keyCell(u.Elem()), v.t})
			}
		case a.op == "field":
			v := e.expr(a.args[0])
			d := deref(v.ty)
			if d == nil {
				if n, ok := v.ty.(*types.Named); ok && types.IsInterface(v.ty) {
					if gd := g.ghostOf(n, a.name); gd != "" {
						g.valref()
						out = append(out, assign{g.keyGhost(gd), "(valref " + v.t + ")"})
						continue
					}
				}
				e.fail(a, "assigns: not a location")
			}
			if gd := g.ghostOf(d, a.name); gd != "" {
				out = append(out, assign{g.keyGhost(gd), v.t})
				continue
			}
			su := d.Underlying().(*types.Struct)
			found := false
			for i := 0; i < su.NumFields(); i++ {
				if su.Field(i).Name() == a.name {
					out = append(out, assign{g.keyField(d, i), v.t})
					found = true
				}
			}
			if !found {
				e.fail(a, "assigns: no field %s", a.name)
			}
		default:
			e.fail(a, "assigns: not a location")
		}
	}
	return out
}

func (g *Gen) applyContract(fr *Frame, in ssa.Instruction, con *Contract, key string, sig *types.Signature, args []*Val, st *State, reach string, mods map[string]*KeyInfo) []*Val {
	pos := g.posOf(in.Pos())
	var tvs []TV
	for _, a := range args {
		tvs = append(tvs, TV{a.t, a.ty})
	}
	pre := st.clone()
	// the epoch seen by the callee: the caller's if all references passed are older than the caller
	ek := g.keyEpoch()
	epre := pre.clone()
	if g.entry != nil {
		var deep []string
		for _, a := range args {
			if a.clo == nil {
				deep = append(deep, g.wf(a.ty, a.t, g.a0())...)
			}
		}
		if c := and(deep...); c != "true" && usesDet(con) {
			epre.m[ek] = g.name("ep", "Int", ite(c, g.get(pre, ek), g.fresh("epoch", "Int")))
		}
	}
	env := g.envFor(con, sig, tvs, epre, epre)
	if con.extern {
		g.exts[key] = true
	}
	// receiver invariant
	if sig.Recv() != nil && len(args) > 0 && !con.extern {
		if f := g.typeInv(args[0].ty, args[0].t, pre); f != "" {
			g.require("invariant", "type invariant of receiver of "+key, pos, reach, f)
		}
	}
	for k, c := range con.requires {
		g.emitGoal("precondition", fmt.Sprintf("precondition %s of %s", clauseName(c, k), key), pos, reach, env, c.e)
	}
	// recursion
	if g.con != nil && g.recursive(key) {
		if len(con.decr) == 0 || len(g.con.decr) == 0 {
			g.require("termination", "recursive call of "+key+" without decreases clause", pos, reach, "false")
		} else {
			var a, b []string
			for i := range con.decr {
				if i >= len(g.con.decr) {
					break
				}
				a = append(a, env.int(con.decr[i]))
				b = append(b, g.entryEnv.int(g.con.decr[i]))
			}
			g.require("termination", "recursive call of "+key+" decreases", pos, reach, lexDec(a, b))
		}
	}
	as := g.assignRefs(env, con)
	// new state
	for _, a := range as {
		g.writeRef(fr, st, reach, a.key, a.ref, in.Pos())
	}
	ak := g.keyAlloc()
	a0 := g.get(pre, ak)
	allocs := !con.extern || con.allocs
	mod := map[string]*KeyInfo{}
	for k, ki := range mods {
		g.keys[k] = ki
		mod[k] = ki
	}
	for _, a := range as {
		mod[a.key] = g.keys[a.key]
	}
	if con.extern && con.allocs {
		for k, ki := range g.freshKeys(sig) {
			mod[k] = ki
		}
	}
	for _, k := range sortedKeys(mod) {
		ki := mod[k]
		if ki.kind == 'A' || ki.kind == 'P' || ki.kind == 'X' {
			continue
		}
		g.keys[k] = ki
		nv := g.fresh(shortKey(k), ki.sort)
		cur := g.get(pre, k)
		var ex []string
		for _, a := range as {
			if a.key == k {
				ex = append(ex, "(= r "+a.ref+")")
			}
		}
		g.frameFact(nv, cur, a0, ex, ki)
		for _, r := range g.recs {
			r.keys[k] = ki
			refs := []string{}
			for _, a := range as {
				if a.key == k {
					refs = append(refs, a.ref)
				}
			}
			if len(refs) == 0 {
				refs = []string{"fresh"}
			}
			r.refs[k] = append(r.refs[k], refs...)
		}
		st.m[k] = nv
	}
	if allocs {
		na := g.fresh("ALLOC", "Int")
		g.fact("(<= " + a0 + " " + na + ")")
		for _, r := range g.recs {
			r.keys[ak] = g.keys[ak]
		}
		st.m[ak] = na
	}
	res := g.havocRes(sig, st)
	post := g.envFor(con, sig, tvs, st, epre)
	if c := epre.m[ek]; c != g.get(pre, ek) && c != "" {
		ps := st.clone()
		ps.m[ek] = c
		post.st = ps
	}
	bindResults(post, con, res)
	if con.det && len(res) > 0 {
		var srts, ts []string
		for _, a := range tvs {
			srts = append(srts, g.sort(a.ty))
			ts = append(ts, a.t)
		}
		for i, r := range res {
			n := g.detFn(key, srts, r.ty)
			if i > 0 {
				n = fmt.Sprintf("det%d_%s", i, sanitize(key))
				g.decl(n, fmt.Sprintf("(declare-fun %s (%s Int) %s)", n, strings.Join(srts, " "), g.sort(r.ty)))
			}
			if hasRef(g.Ctx, r.ty) {
				continue // a fresh result is not a function of the arguments
			}
			g.factIf(reach, "(= "+r.t+" ("+n+" "+strings.Join(append(append([]string{}, ts...), g.get(epre, ek)), " ")+"))")
		}
	}
	for _, c := range con.ensures {
		if !con.extern && !g.wantClause(c) {
			continue
		}
		g.factIf(reach, post.bool(c.e))
	}
	for _, c := range con.defs {
		g.factIf(reach, post.bool(c.e))
	}
	return res
}

func usesDet(con *Contract) bool { return true }

func (g *Gen) frameFact(nv, cur, a0 string, except []string, ki *KeyInfo) {
	c := "(oldref r " + a0 + ")"
	if len(except) > 0 {
		c = and(c, not(or(except...)))
	}
	g.fact(fmt.Sprintf("(forall ((r Int)) (! (=> %s (= (select %s r) (select %s r))) :pattern ((select %s r))))", c, nv, cur, nv))
	if ki.kind == 'D' {
		g.fact(fmt.Sprintf("(= (select %s 0) %s)", nv, g.emptySet(ki.ty.Underlying().(*types.Map).Key())))
	}
}

func bindResults(e *Env, con *Contract, res []*Val) {
	names := con.results
	for i, r := range res {
		if i < len(names) {
			e.names[names[i]] = TV{r.t, r.ty}
		}
		if len(res) == 1 {
			e.names["result"] = TV{r.t, r.ty}
		}
		e.names[fmt.Sprintf("result%d", i)] = TV{r.t, r.ty}
	}
}

func lexDec(a, b []string) string {
	// a < b lexicographically, with b bounded below
	out := "false"
	for i := len(a) - 1; i >= 0; i-- {
		lt := and("(< "+a[i]+" "+b[i]+")", "(<= 0 "+b[i]+")")
		if out == "false" {
			out = lt
		} else {
			out = or(lt, and("(= "+a[i]+" "+b[i]+")", out))
		}
	}
	return out
}

// freshKeys: memory in which an external function may allocate its result.
func (g *Gen) freshKeys(sig *types.Signature) map[string]*KeyInfo {
	out := map[string]*KeyInfo{}
	var add func(t types.Type, d int)
	add = func(t types.Type, d int) {
		if d > 4 {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			k := g.keyElem(u.Elem())
			out[k] = g.keys[k]
			add(u.Elem(), d+1)
		case *types.Map:
			k := g.keyDom(u)
			out[k] = g.keys[k]
			k = g.keyVal(u)
			out[k] = g.keys[k]
			add(u.Elem(), d+1)
		case *types.Pointer:
			if su, ok := u.Elem().Underlying().(*types.Struct); ok && g.transparent(u.Elem()) {
				for i := 0; i < su.NumFields(); i++ {
					k := g.keyField(u.Elem(), i)
					out[k] = g.keys[k]
				}
			}
			if n, ok := u.Elem().(*types.Named); ok && n.Obj().Pkg() != nil {
				p := n.Obj().Pkg().Name() + "." + n.Obj().Name() + "."
				for _, k := range sortedKeys(g.sp.ghosts) {
					if strings.HasPrefix(k, p) {
						kk := g.keyGhost(k)
						out[kk] = g.keys[kk]
					}
				}
			}
		case *types.Struct:
			if g.transparent(t) {
				for i := 0; i < u.NumFields(); i++ {
					add(u.Field(i).Type(), d+1)
				}
			}
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		add(sig.Results().At(i).Type(), 0)
	}
	return out
}

func clauseName(c Clause, k int) string {
	if c.name != "" {
		return "\"" + c.name + "\""
	}
	return fmt.Sprintf("%d", k+1)
}

// emitGoal emits an obligation, one for each conjunct.
func (g *Gen) emitGoal(kind, label, pos, reach string, env *Env, e *Expr) {
	var parts []*Expr
	var split func(x *Expr)
	split = func(x *Expr) {
		if x.op == "bin" && x.name == "&&" {
			split(x.args[0])
			split(x.args[1])
			return
		}
		parts = append(parts, x)
	}
	split(e)
	for i, p := range parts {
		l := label
		if len(parts) > 1 {
			l += fmt.Sprintf(" (part %d)", i+1)
		}
		g.require(kind, l, pos, reach, env.bool(p))
	}
}

// --- which state a function may change (from its code) ---------------------------

func (g *Gen) modset(fn *ssa.Function) map[string]*KeyInfo {
	if m, ok := g.modCache[fn]; ok {
		for k, ki := range m {
			g.keys[k] = ki
			g.declSorts(ki)
		}
		return m
	}
	out := map[string]*KeyInfo{}
	g.modWalk(fn, out, map[*ssa.Function]bool{})
	g.modCache[fn] = out
	return out
}

// declSorts makes sure that the sorts of a cached key are declared in this run.
func (g *Gen) declSorts(k *KeyInfo) {
	if k.ty != nil {
		if m, ok := k.ty.Underlying().(*types.Map); ok && (k.kind == 'D' || k.kind == 'V') {
			g.sort(m.Key())
			g.sort(m.Elem())
			return
		}
		g.sort(k.ty)
	}
}

func (g *Gen) modWalk(fn *ssa.Function, out map[string]*KeyInfo, seen map[*ssa.Function]bool) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	put := func(k string) { out[k] = g.keys[k] }
	put(g.keyAlloc())
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Alloc:
				if g.isLocalAlloc(i) {
					continue
				}
				g.allocKeys(deref(i.Type()), put)
			case *ssa.Store:
				if g.localAddr(i.Addr) {
					continue
				}
				switch a := i.Addr.(type) {
				case *ssa.FieldAddr:
					root, f := rootField(a)
					if root != nil {
						put(g.keyField(deref(root.X.Type()), f))
					} else {
						g.addrKeys(a, put)
					}
				case *ssa.IndexAddr:
					g.addrKeys(a, put)
				case *ssa.Global:
					put(g.keyGlobal(a))
				default:
					g.allocKeys(deref(i.Addr.Type()), put)
				}
			case *ssa.MapUpdate:
				m := i.Map.Type().Underlying().(*types.Map)
				put(g.keyDom(m))
				put(g.keyVal(m))
			case *ssa.MakeMap:
				m := i.Type().Underlying().(*types.Map)
				put(g.keyDom(m))
				put(g.keyVal(m))
			case *ssa.MakeSlice:
				put(g.keyElem(i.Type().Underlying().(*types.Slice).Elem()))
			case *ssa.Convert:
				if sl, ok := i.Type().Underlying().(*types.Slice); ok {
					put(g.keyElem(sl.Elem()))
				}
			case *ssa.MakeClosure:
				g.modWalk(i.Fn.(*ssa.Function), out, seen)
			case ssa.CallInstruction:
				c := i.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					switch b.Name() {
					case "append":
						put(g.keyElem(c.Args[0].Type().Underlying().(*types.Slice).Elem()))
					case "copy":
						put(g.keyElem(c.Args[0].Type().Underlying().(*types.Slice).Elem()))
					case "delete", "clear":
						if m, ok := c.Args[0].Type().Underlying().(*types.Map); ok {
							put(g.keyDom(m))
							put(g.keyVal(m))
						} else if s, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
							put(g.keyElem(s.Elem()))
						}
					}
					continue
				}
				if c.IsInvoke() {
					g.ifaceModWalk(ifaceKey(c.Value.Type(), c.Method.Name()), c, out, seen)
					continue
				}
				if f := c.StaticCallee(); f != nil {
					g.calleeMods(f, out, seen, c)
				}
			}
		}
	}
}

func (g *Gen) calleeMods(f *ssa.Function, out map[string]*KeyInfo, seen map[*ssa.Function]bool, c *ssa.CallCommon) {
	if g.inRepo(f) || (f.Synthetic != "" && len(f.Blocks) > 0 && g.sp.contracts[fnKey(f)] == nil) {
		g.modWalk(f, out, seen)
		return
	}
	g.externMods(g.sp.contracts[fnKey(f)], fnKey(f), f.Signature, c, out)
}

func (g *Gen) externMods(con *Contract, key string, sig *types.Signature, c *ssa.CallCommon, out map[string]*KeyInfo) {
	switch key {
	case "slices.Sort", "sort.Slice", "slices.SortFunc", "sort.Strings", "slices.Compact", "slices.Reverse", "slices.Replace", "slices.Delete", "slices.Insert", "sort.SliceStable", "slices.SortStableFunc":
		t := c.Args[0].Type()
		if mi, ok := c.Args[0].(*ssa.MakeInterface); ok {
			t = mi.X.Type()
		}
		if s, ok := t.Underlying().(*types.Slice); ok {
			k := g.keyElem(s.Elem())
			out[k] = g.keys[k]
		}
	}
	if con == nil {
		return
	}
	if con.allocs {
		for k, ki := range g.freshKeys(sig) {
			out[k] = ki
		}
	}
	// ghost fields and other locations named by assigns, by type only
	var tvs []TV
	if r := sig.Recv(); r != nil {
		tvs = append(tvs, TV{"x", r.Type()})
	} else if c != nil && c.IsInvoke() {
		tvs = append(tvs, TV{"x", c.Value.Type()})
	}
	for i := 0; i < sig.Params().Len(); i++ {
		tvs = append(tvs, TV{"x", sig.Params().At(i).Type()})
	}
	defer func() {
		if r := recover(); r != nil {
			if ee, ok := r.(elabErr); ok {
				panic(ee)
			}
			panic(r)
		}
	}()
	env := g.envFor(con, sig, tvs, newState(), newState())
	for _, a := range g.assignRefs(env, con) {
		out[a.key] = g.keys[a.key]
	}
}

func (g *Gen) ifaceModWalk(key string, c *ssa.CallCommon, out map[string]*KeyInfo, seen map[*ssa.Function]bool) {
	if con := g.sp.contracts[key]; con != nil {
		g.externMods(con, key, c.Signature(), c, out)
		if con.extern {
			return
		}
	}
	for _, f := range g.implementors(c.Value.Type(), c.Method.Name()) {
		g.modWalk(f, out, seen)
	}
}

func (g *Gen) ifaceMods(key string, c *ssa.CallCommon) map[string]*KeyInfo {
	out := map[string]*KeyInfo{}
	if con := g.sp.contracts[key]; con != nil && con.extern {
		return out
	}
	seen := map[*ssa.Function]bool{}
	for _, f := range g.implementors(c.Value.Type(), c.Method.Name()) {
		g.modWalk(f, out, seen)
	}
	return out
}

// implementors of an interface method among the types of the verified packages.
func (c *Ctx) implementors(t types.Type, m string) []*ssa.Function {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, name := range sortedKeys(c.pkgs) {
		p := c.pkgs[name]
		if !c.pkgPath[p.Pkg.Path()] {
			continue
		}
		for _, n := range p.Pkg.Scope().Names() {
			tn, ok := p.Pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || types.IsInterface(tn.Type()) {
				continue
			}
			for _, ty := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
				if types.Implements(ty, it) {
					sel := c.prog.MethodSets.MethodSet(ty).Lookup(p.Pkg, m)
					if sel == nil {
						sel = c.prog.MethodSets.MethodSet(ty).Lookup(nil, m)
					}
					if sel != nil {
						if f := c.prog.MethodValue(sel); f != nil {
							out = append(out, f)
						}
					}
					break
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (g *Gen) localAddr(v ssa.Value) bool {
	switch a := v.(type) {
	case *ssa.Alloc:
		return g.isLocalAlloc(a)
	case *ssa.FieldAddr:
		return g.localAddr(a.X)
	case *ssa.IndexAddr:
		if _, ok := a.X.Type().Underlying().(*types.Pointer); ok {
			return g.localAddr(a.X)
		}
	case *ssa.FreeVar:
		return g.localUse(a, 0) && g.freeVarLocal(a)
	}
	return false
}

func (g *Gen) freeVarLocal(v *ssa.FreeVar) bool {
	// the captured variable is a local of the enclosing function
	f := v.Parent()
	for i, fv := range f.FreeVars {
		if fv != v {
			continue
		}
		for _, r := range *f.Referrers() {
			if mc, ok := r.(*ssa.MakeClosure); ok && i < len(mc.Bindings) {
				return g.localAddr(mc.Bindings[i])
			}
		}
		if f.Parent() != nil {
			for _, b := range f.Parent().Blocks {
				for _, in := range b.Instrs {
					if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == f {
						return g.localAddr(mc.Bindings[i])
					}
				}
			}
		}
	}
	return false
}

func rootField(a *ssa.FieldAddr) (*ssa.FieldAddr, int) {
	for {
		x, ok := a.X.(*ssa.FieldAddr)
		if !ok {
			if _, isIx := a.X.(*ssa.IndexAddr); isIx {
				return nil, 0
			}
			return a, a.Field
		}
		a = x
	}
}

func (g *Gen) addrKeys(v ssa.Value, put func(string)) {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		if r, f := rootField(a); r != nil {
			put(g.keyField(deref(r.X.Type()), f))
			return
		}
		g.addrKeys(a.X, put)
	case *ssa.IndexAddr:
		switch u := a.X.Type().Underlying().(type) {
		case *types.Slice:
			put(g.keyElem(u.Elem()))
		case *types.Pointer:
			if fa, ok := a.X.(*ssa.FieldAddr); ok {
				g.addrKeys(fa, put)
				return
			}
			put(g.keyElem(u.Elem().Underlying().(*types.Array).Elem()))
		}
	}
}

func (g *Gen) allocKeys(t types.Type, put func(string)) {
	switch u := t.Underlying().(type) {
	case *types.Array:
		put(g.keyElem(u.Elem()))
	case *types.Struct:
		if !g.transparent(t) {
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				p := n.Obj().Pkg().Name() + "." + n.Obj().Name() + "."
				for _, k := range sortedKeys(g.sp.ghosts) {
					if strings.HasPrefix(k, p) {
						put(g.keyGhost(k))
					}
				}
			}
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			if _, isS := ft.Underlying().(*types.Struct); isS && !g.transparent(ft) {
				g.allocKeys(ft, put)
				continue
			}
			put(g.keyField(t, i))
		}
	default:
		put(g.keyCell(t))
	}
}

// recursive: can the function with this key call the one under verification again?
func (g *Gen) recursive(key string) bool {
	if g.fn == nil {
		return false
	}
	target := g.conKey
	if b, ok := g.recCache[key]; ok {
		return b
	}
	seen := map[string]bool{}
	var visit func(k string) bool
	visit = func(k string) bool {
		if k == target {
			return true
		}
		if seen[k] {
			return false
		}
		seen[k] = true
		for _, c := range g.callGraph(k) {
			if visit(c) {
				return true
			}
		}
		return false
	}
	r := visit(key)
	g.recCache[key] = r
	return r
}

// callGraph lists the keys called by the functions filed under a key.
func (c *Ctx) callGraph(key string) []string {
	if r, ok := c.cgCache[key]; ok {
		return r
	}
	set := map[string]bool{}
	var fns []*ssa.Function
	if f := c.byKey[key]; f != nil {
		fns = append(fns, f)
	}
	if it := c.ifaceByKey[key]; it != nil {
		fns = append(fns, c.implementors(it.t, it.m)...)
	}
	var walk func(f *ssa.Function)
	walked := map[*ssa.Function]bool{}
	walk = func(f *ssa.Function) {
		if walked[f] {
			return
		}
		walked[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case ssa.CallInstruction:
					cc := i.Common()
					if cc.IsInvoke() {
						set[ifaceKey(cc.Value.Type(), cc.Method.Name())] = true
					} else if s := cc.StaticCallee(); s != nil && (c.inRepo(s) || s.Synthetic != "") {
						if c.inRepo(s) {
							set[fnKey(s)] = true
						} else {
							walk(s)
						}
					}
				case *ssa.MakeClosure:
					walk(i.Fn.(*ssa.Function))
				}
			}
		}
	}
	for _, f := range fns {
		if c.inRepo(f) || f.Synthetic != "" {
			set[fnKey(f)] = set[fnKey(f)] || fnKey(f) != key
			walk(f)
		}
	}
	var out []string
	for k := range set {
		if set[k] {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	c.cgCache[key] = out
	return out
}

// --- builtins -----------------------------------------------------------------

func (g *Gen) builtin(fr *Frame, in ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, v ssa.Value, st *State, reach string) {
	def := func(t string) {
		if call, ok := v.(*ssa.Call); ok {
			if !isAtom(t) {
				t = g.name(call.Name(), g.sort(call.Type()), t)
			}
			fr.vals[call] = &Val{t: t, ty: call.Type()}
		}
	}
	arg := func(i int) string { return g.term(fr, st, reach, c.Args[i]) }
	switch b.Name() {
	case "len":
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			def("(slength " + arg(0) + ")")
		case *types.Basic:
			def("(slen " + arg(0) + ")")
		case *types.Map:
			def(g.mapLen(st, u, arg(0)))
		case *types.Array:
			def(fmt.Sprint(u.Len()))
		default:
			g.unsupported(in, reach, "len")
		}
	case "cap":
		def("(scap " + arg(0) + ")")
	case "append":
		def(g.doAppend(fr, in, c, st, reach))
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		x, k := arg(0), arg(1)
		kd := g.keyDom(m)
		// deleting from a nil map does nothing
		g.writeRef(fr, st, and(reach, not("(= "+x+" 0)")), kd, x, in.Pos())
		d := g.get(st, kd)
		g.set(st, kd, fmt.Sprintf("(store %s %s (store %s %s false))", d, x, sel(d, x), k), x)
	case "copy":
		def(g.copyModel(fr, in, c, st, reach))
	case "min", "max":
		t := arg(0)
		for i := 1; i < len(c.Args); i++ {
			op := "<="
			if b.Name() == "max" {
				op = ">="
			}
			t = fmt.Sprintf("(ite (%s %s %s) %s %s)", op, t, arg(i), t, arg(i))
		}
		def(t)
	case "print", "println":
	case "ssa:wrapnilchk":
		def(arg(0))
	default:
		g.unsupported(in, reach, "builtin "+b.Name())
		if call, ok := v.(*ssa.Call); ok && call.Type() != nil {
			if _, isT := call.Type().(*types.Tuple); !isT {
				def(g.fresh("v", g.sort(call.Type())))
			}
		}
	}
}

func (g *Gen) doAppend(fr *Frame, in ssa.Instruction, c *ssa.CallCommon, st *State, reach string) string {
	s := g.term(fr, st, reach, c.Args[0])
	tv := g.val(fr, st, c.Args[1])
	t := g.valTerm(tv, c.Args[1], reach)
	slt := c.Args[0].Type().Underlying().(*types.Slice)
	el := slt.Elem()
	isStr := false
	if b, ok := c.Args[1].Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		isStr = true
	}
	return g.appendTo(fr, in, s, t, tv.vlen-1, isStr, el, st, reach)
}

func (g *Gen) appendTo(fr *Frame, in ssa.Instruction, s, t string, vlen int, isStr bool, el types.Type, st *State, reach string) string {
	k := g.keyElem(el)
	es := g.sort(el)
	E := g.get(st, k)
	base, off, n := "(sbase "+s+")", "(soff "+s+")", "(slength "+s+")"
	A := g.name("arr", "(Array Int "+es+")", sel(E, base))
	end := g.name("end", "Int", "(send "+s+")")
	var m, C string
	mem := g.memFn(es)
	if vlen >= 0 && vlen <= 8 && !isStr {
		m = fmt.Sprint(vlen)
		B := sel(E, "(sbase "+t+")")
		C = A
		for i := 0; i < vlen; i++ {
			x := g.name("x", es, sel(B, fmt.Sprint(i)))
			C2 := g.name("arr", "(Array Int "+es+")", fmt.Sprintf("(store %s (+ %s %d) %s)", C, end, i, x))
			lo := end
			if i > 0 {
				lo = fmt.Sprintf("(+ %s %d)", end, i)
			}
			// membership after appending one element
			g.memFact(mem, es, C2, off, "(+ "+lo+" 1)", fmt.Sprintf("(or (%s %s %s %s y) (and (<= %s %s) (= y %s)))", mem, C, off, lo, off, lo, x))
			// membership in what was there before
			if g.con != nil && g.con.prefix {
				g.memFact(mem, es, C2, off, lo, fmt.Sprintf("(%s %s %s %s y)", mem, C, off, lo))
			}
			C = C2
		}
	} else {
		var B, boff string
		if isStr {
			m = "(slen " + t + ")"
		} else {
			m = "(slength " + t + ")"
			B = g.name("arr", "(Array Int "+es+")", sel(E, "(sbase "+t+")"))
			boff = "(soff " + t + ")"
		}
		m = g.name("m", "Int", m)
		C = g.fresh("arr", "(Array Int "+es+")")
		g.fact(fmt.Sprintf("(forall ((j Int)) (! (=> (or (< j %[1]s) (>= j (+ %[1]s %[2]s))) (= (select %[3]s j) (select %[4]s j))) :pattern ((select %[3]s j))))", end, m, C, A))
		if isStr {
			g.fact(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= 0 j) (< j %[2]s)) (= (select %[3]s (+ %[1]s j)) (sat %[4]s j))) :pattern ((sat %[4]s j))))", end, m, C, t))
			g.fact(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= %[1]s j) (< j (+ %[1]s %[2]s))) (= (select %[3]s j) (sat %[4]s (- j %[1]s)))) :pattern ((select %[3]s j))))", end, m, C, t))
		} else {
			g.fact(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= %[1]s j) (< j (+ %[1]s %[2]s))) (= (select %[3]s j) (select %[4]s (+ %[5]s (- j %[1]s))))) :pattern ((select %[3]s j))))", end, m, C, B, boff))
			g.fact(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= %[5]s j) (< j (+ %[5]s %[2]s))) (= (select %[4]s j) (select %[3]s (+ %[1]s (- j %[5]s))))) :pattern ((select %[4]s j))))", end, m, C, B, boff))
			g.memFact(mem, es, C, off, "(+ "+end+" "+m+")", fmt.Sprintf("(or (%s %s %s %s y) (%s %s %s (send %s) y))", mem, A, off, end, mem, B, boff, t))
		}
	}
	if f := g.elemInv(el, "?", st); f != "" && vlen >= 0 {
		// elements were checked when they were stored in the argument array
		_ = f
	}
	nl := add(n, m)
	inpl := g.name("inplace", "Bool", and(fmt.Sprintf("(<= %s (scap %s))", nl, s)))
	// appending nothing to a nil slice gives nil
	oldA := g.get(st, g.keyAlloc())
	fr2 := g.freshRef(g.alloc(st), "grown")
	_ = oldA
	nb := g.name("base", "Int", ite(inpl, base, fr2))
	if m != "0" {
		g.writeRef(fr, st, and(reach, inpl, not("(= "+m+" 0)")), k, base, in.Pos())
	}
	nc := g.fresh("cap", "Int")
	g.fact(fmt.Sprintf("(and (<= %s %s) (=> %s (= %s (scap %s))))", nl, nc, inpl, nc, s))
	if m == "0" {
		return s
	}
	g.setBases(st, k, fmt.Sprintf("(store %s %s %s)", E, nb, C), nb, base)
	r := g.name("app", "Slice", fmt.Sprintf("(mk-slice %s %s %s %s)", nb, off, nl, nc))
	g.fact("(= (send " + r + ") (+ " + end + " " + m + "))")
	return r
}

func (g *Gen) copyModel(fr *Frame, in ssa.Instruction, c *ssa.CallCommon, st *State, reach string) string {
	d := g.term(fr, st, reach, c.Args[0])
	s := g.term(fr, st, reach, c.Args[1])
	el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	k := g.keyElem(el)
	es := g.sort(el)
	E := g.get(st, k)
	isStr := g.sort(c.Args[1].Type()) == "Str"
	n := "(slength " + s + ")"
	if isStr {
		n = "(slen " + s + ")"
	}
	m := g.name("copied", "Int", ite("(<= "+n+" (slength "+d+"))", n, "(slength "+d+")"))
	A := g.name("arr", "(Array Int "+es+")", sel(E, "(sbase "+d+")"))
	C := g.fresh("arr", "(Array Int "+es+")")
	lo := "(soff " + d + ")"
	g.fact(fmt.Sprintf("(forall ((j Int)) (! (=> (or (< j %[1]s) (>= j (+ %[1]s %[2]s))) (= (select %[3]s j) (select %[4]s j))) :pattern ((select %[3]s j))))", lo, m, C, A))
	if isStr {
		g.fact(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= %[1]s j) (< j (+ %[1]s %[2]s))) (= (select %[3]s j) (sat %[4]s (- j %[1]s)))) :pattern ((select %[3]s j))))", lo, m, C, s))
	} else {
		B := g.name("arr", "(Array Int "+es+")", sel(E, "(sbase "+s+")"))
		g.fact(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= %[1]s j) (< j (+ %[1]s %[2]s))) (= (select %[3]s j) (select %[4]s (+ (soff %[5]s) (- j %[1]s))))) :pattern ((select %[3]s j))))", lo, m, C, B, s))
	}
	g.writeRef(fr, st, and(reach, not("(= "+m+" 0)")), k, "(sbase "+d+")", in.Pos())
	g.set(st, k, fmt.Sprintf("(store %s (sbase %s) %s)", E, d, C), "(sbase "+d+")")
	return m
}

// memFact: membership y in a[lo,hi) is rhs; the bounds are matched up to arithmetic equality.
func (g *Gen) memFact(mem, es, a, lo, hi, rhs string) {
	g.fact(fmt.Sprintf("(forall ((y %[1]s) (o Int) (h Int)) (! (=> (and (= o %[4]s) (= h %[5]s)) (= (%[2]s %[3]s o h y) %[6]s)) :pattern ((%[2]s %[3]s o h y))))", es, mem, a, lo, hi, rhs))
}

// setBases records a write at a reference that is either fresh or the given old one.
func (g *Gen) setBases(st *State, key, term, ref, old string) {
	g.set(st, key, term, old)
}

// --- library functions that need more than a contract -----------------------------

func (g *Gen) special(fr *Frame, in ssa.Instruction, key string, fn *ssa.Function, args []*Val, c *ssa.CallCommon, st *State, reach string, bind func([]*Val)) bool {
	switch key {
	case "sort.Slice", "sort.SliceStable":
		g.exts[key] = true
		g.sortSlice(fr, in, args, c, st, reach)
		bind(nil)
		return true
	case "slices.SortFunc", "slices.SortStableFunc":
		g.exts[key] = true
		g.sortSlice(fr, in, args, c, st, reach)
		bind(nil)
		return true
	case "sync.(Map).Range":
		return g.mapRange(fr, in, args, c, st, reach, bind)
	case "slices.Sort", "sort.Strings":
		g.exts[key] = true
		g.slicesSort(fr, in, args, c, st, reach)
		bind(nil)
		return true
	case "slices.Compact":
		g.exts[key] = true
		bind([]*Val{g.slicesCompact(fr, in, args, c, st, reach)})
		return true
	case "slices.Contains":
		g.exts[key] = true
		el := args[0].ty.Underlying().(*types.Slice).Elem()
		arr := sel(g.get(st, g.keyElem(el)), "(sbase "+args[0].t+")")
		t := fmt.Sprintf("(%[1]s %[2]s (soff %[3]s) (send %[3]s) %[4]s)", g.memFn(g.sort(el)), arr, args[0].t, args[1].t)
		bind([]*Val{{t: g.name("contains", "Bool", t), ty: tBool}})
		return true
	case "slices.Clone":
		g.exts[key] = true
		el := args[0].ty.Underlying().(*types.Slice).Elem()
		k := g.keyElem(el)
		x := args[0].t
		r := g.freshRef(g.alloc(st), "clone")
		E := g.get(st, k)
		g.set(st, k, fmt.Sprintf("(store %s %s %s)", E, r, sel(E, "(sbase "+x+")")), r)
		nc := g.fresh("cap", "Int")
		g.fact(fmt.Sprintf("(<= (slength %s) %s)", x, nc))
		t := g.name("clone", "Slice", ite("(= (sbase "+x+") 0)", "nilslice", fmt.Sprintf("(mk-slice %s (soff %s) (slength %s) %s)", r, x, x, nc)))
		bind([]*Val{{t: t, ty: args[0].ty}})
		return true
	case "slices.Replace":
		g.exts[key] = true
		bind([]*Val{g.slicesReplace(fr, in, args, st, reach)})
		return true
	}
	return false
}

func (g *Gen) sliceArg(v ssa.Value) (types.Type, ssa.Value) {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return mi.X.Type(), mi.X
	}
	return v.Type(), v
}

// havocElems replaces the elements of a slice within its range by a permutation of them.
func (g *Gen) permute(fr *Frame, in ssa.Instruction, s string, el types.Type, st *State, reach string) (A, C, lo, hi string) {
	k := g.keyElem(el)
	es := g.sort(el)
	E := g.get(st, k)
	base := "(sbase " + s + ")"
	A = g.name("arr", "(Array Int "+es+")", sel(E, base))
	C = g.fresh("perm", "(Array Int "+es+")")
	lo = g.name("lo", "Int", "(soff "+s+")")
	hi = g.name("hi", "Int", "(send "+s+")")
	mem := g.memFn(es)
	g.nPerm++
	pf, qf := fmt.Sprintf("permf%d", g.nPerm), fmt.Sprintf("perminv%d", g.nPerm)
	g.decls = append(g.decls, fmt.Sprintf("(declare-fun %s (Int) Int)\n(declare-fun %s (Int) Int)", pf, qf))
	g.fact(fmt.Sprintf("(forall ((j Int)) (! (=> (not (and (<= %[1]s j) (< j %[2]s))) (= (select %[3]s j) (select %[4]s j))) :pattern ((select %[3]s j))))", lo, hi, C, A))
	g.fact(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= %[1]s j) (< j %[2]s)) (and (<= %[1]s (%[5]s j)) (< (%[5]s j) %[2]s) (= (%[6]s (%[5]s j)) j) (= (select %[3]s j) (select %[4]s (%[5]s j))))) :pattern ((select %[3]s j))))", lo, hi, C, A, pf, qf))
	g.fact(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= %[1]s j) (< j %[2]s)) (and (<= %[1]s (%[6]s j)) (< (%[6]s j) %[2]s) (= (%[5]s (%[6]s j)) j) (= (select %[4]s j) (select %[3]s (%[6]s j))))) :pattern ((select %[4]s j))))", lo, hi, C, A, pf, qf))
	g.memFact(mem, es, C, lo, hi, fmt.Sprintf("(%s %s %s %s y)", mem, A, lo, hi))
	g.memFact(mem, es, A, lo, hi, fmt.Sprintf("(%s %s %s %s y)", mem, C, lo, hi))
	g.writeRef(fr, st, and(reach, "(< 1 (slength "+s+"))"), k, base, in.Pos())
	g.set(st, k, fmt.Sprintf("(store %s %s %s)", E, base, C), base)
	return
}

func (g *Gen) sortSlice(fr *Frame, in ssa.Instruction, args []*Val, c *ssa.CallCommon, st *State, reach string) {
	t, sv := g.sliceArg(c.Args[0])
	sl, ok := t.Underlying().(*types.Slice)
	if !ok || args[1].clo == nil {
		g.unsupported(in, reach, "sort.Slice")
		return
	}
	s := g.term(fr, st, reach, sv)
	k := g.keyElem(sl.Elem())
	_, _, lo, hi := g.permute(fr, in, s, sl.Elem(), st, reach)
	base := "(sbase " + s + ")"
	// evaluate the comparison on the sorted slice at symbolic positions
	rng := func(x string) string { return and("(<= 0 "+x+")", "(< "+x+" (slength "+s+"))") }
	byValue := len(args[1].clo.fn.Params) == 2 && !types.Identical(args[1].clo.fn.Params[0].Type(), tInt) ||
		args[1].clo.fn.Signature.Results().Len() == 1 && types.Identical(args[1].clo.fn.Signature.Results().At(0).Type(), tInt) // a three-way comparison of elements
	at := func(i string) string {
		return "(select " + sel(g.get(st, k), base) + " (ix (soff " + s + ") " + i + "))"
	}
	eval := func(i, j string, check bool) (string, int) {
		st2 := st.clone()
		n0 := len(g.facts)
		if !check {
			g.dry++
		}
		vi, vj := &Val{t: i, ty: tInt}, &Val{t: j, ty: tInt}
		if byValue {
			es := g.sort(sl.Elem())
			vi, vj = &Val{t: g.name("x", es, at(i)), ty: sl.Elem()}, &Val{t: g.name("y", es, at(j)), ty: sl.Elem()}
		}
		res, _, _ := g.inline(fr, in, args[1].clo.fn, args[1].clo.binds, []*Val{vi, vj}, st2, and(reach, rng(i), rng(j)))
		if !check {
			g.dry--
		}
		if len(res) != 1 {
			return "false", n0
		}
		if byValue {
			return "(< " + res[0].t + " 0)", n0
		}
		return res[0].t, n0
	}
	_ = lo
	_ = hi
	// the comparison must not write; check on fresh positions, for safety
	pi, pj := g.fresh("pi", "Int"), g.fresh("pj", "Int")
	rec := g.startRec()
	lij, n0 := eval(pi, pj, true)
	g.stopRec()
	for kk := range rec.keys {
		if kk != "A:" && g.keys[kk].kind != 'L' {
			g.unsupported(in, reach, "comparison function with side effects")
		}
	}
	// generalise: the facts that define the comparison at (pi,pj) hold for all positions
	defs := append([]string{}, g.facts[n0:]...)
	body := g.expandDefs(defs, lij, n0, map[string]bool{pi: true, pj: true})
	if body == "" {
		g.unsupported(in, reach, "comparison function is not a simple expression")
		return
	}
	sub := func(i, j string) string { return replaceAtoms(body, map[string]string{pi: i, pj: j}) }
	// strict weak order on the elements
	x, y, z := "q1", "q2", "q3"
	q := func(f string) string {
		return fmt.Sprintf("(forall ((q1 Int) (q2 Int) (q3 Int)) (=> (and %s %s %s) %s))", rng("q1"), rng("q2"), rng("q3"), f)
	}
	g.require("sort", "comparison is irreflexive", g.posOf(in.Pos()), reach, q(not(sub(x, x))))
	g.require("sort", "comparison is transitive", g.posOf(in.Pos()), reach, q(imp(and(sub(x, y), sub(y, z)), sub(x, z))))
	g.require("sort", "incomparability is transitive", g.posOf(in.Pos()), reach, q(imp(and(not(sub(x, y)), not(sub(y, x)), not(sub(y, z)), not(sub(z, y))), and(not(sub(x, z)), not(sub(z, x))))))
	E := g.get(st, k)
	arr := sel(E, base)
	g.factIf(reach, fmt.Sprintf("(forall ((q1 Int) (q2 Int)) (! (=> (and (<= 0 q1) (< q1 q2) (< q2 (slength %s))) (not %s)) :pattern ((select %s (ix (soff %s) q1)) (select %s (ix (soff %s) q2)))))", s, sub("q2", "q1"), arr, s, arr, s))
	g.factIf(reach, fmt.Sprintf("(forall ((q1 Int) (q2 Int)) (! (=> (and (<= (soff %[1]s) q1) (< q1 q2) (< q2 (+ (soff %[1]s) (slength %[1]s)))) (not %[2]s)) :pattern ((select %[3]s q1) (select %[3]s q2))))", s, sub("(- q2 (soff "+s+"))", "(- q1 (soff "+s+"))"), arr))
}

func (g *Gen) slicesSort(fr *Frame, in ssa.Instruction, args []*Val, c *ssa.CallCommon, st *State, reach string) {
	el := args[0].ty.Underlying().(*types.Slice).Elem()
	_, C, lo, hi := g.permute(fr, in, args[0].t, el, st, reach)
	le := func(a, b string) string {
		if g.sort(el) == "Str" {
			return "(not (slt " + b + " " + a + "))"
		}
		return "(<= " + a + " " + b + ")"
	}
	g.fact(fmt.Sprintf("(forall ((q1 Int) (q2 Int)) (! (=> (and (<= %[1]s q1) (<= q1 q2) (< q2 %[2]s)) %[3]s) :pattern ((select %[4]s q1) (select %[4]s q2))))", lo, hi, le("(select "+C+" q1)", "(select "+C+" q2)"), C))
}

// slices.Compact keeps one of each run of equal elements.
func (g *Gen) slicesCompact(fr *Frame, in ssa.Instruction, args []*Val, c *ssa.CallCommon, st *State, reach string) *Val {
	s := args[0].t
	el := args[0].ty.Underlying().(*types.Slice).Elem()
	k := g.keyElem(el)
	es := g.sort(el)
	E := g.get(st, k)
	base := "(sbase " + s + ")"
	A := g.name("arr", "(Array Int "+es+")", sel(E, base))
	C := g.fresh("compact", "(Array Int "+es+")")
	n := g.fresh("n", "Int")
	lo := g.name("lo", "Int", "(soff "+s+")")
	hi := g.name("hi", "Int", "(send "+s+")")
	mem := g.memFn(es)
	g.nPerm++
	pf := fmt.Sprintf("compactf%d", g.nPerm)
	g.decls = append(g.decls, fmt.Sprintf("(declare-fun %s (Int) Int)", pf))
	g.fact(fmt.Sprintf("(and (<= 0 %[1]s) (<= %[1]s (slength %[2]s)) (=> (< 0 (slength %[2]s)) (< 0 %[1]s)))", n, s))
	g.fact(fmt.Sprintf("(forall ((j Int)) (! (=> (not (and (<= %[1]s j) (< j %[2]s))) (= (select %[3]s j) (select %[4]s j))) :pattern ((select %[3]s j))))", lo, hi, C, A))
	// strictly increasing positions of the elements kept
	g.fact(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= %[1]s j) (< j (+ %[1]s %[7]s))) (and (<= j (%[5]s j)) (<= %[1]s (%[5]s j)) (< (%[5]s j) %[2]s) (= (select %[3]s j) (select %[4]s (%[5]s j))))) :pattern ((select %[3]s j)) :pattern ((%[5]s j))))", lo, hi, C, A, pf, "", n))
	g.fact(fmt.Sprintf("(forall ((i Int) (j Int)) (! (=> (and (<= %[1]s i) (< i j) (< j (+ %[1]s %[2]s))) (< (%[3]s i) (%[3]s j))) :pattern ((%[3]s i) (%[3]s j))))", lo, n, pf))
	// neighbours differ
	g.fact(fmt.Sprintf("(forall ((j Int)) (! (=> (and (<= %[1]s j) (< (+ j 1) (+ %[1]s %[2]s))) (not (= (select %[3]s j) (select %[3]s (+ j 1))))) :pattern ((select %[3]s j))))", lo, n, C))
	g.memFact(mem, es, C, lo, "(+ "+lo+" "+n+")", fmt.Sprintf("(%s %s %s %s y)", mem, A, lo, hi))
	g.memFact(mem, es, A, lo, hi, fmt.Sprintf("(%s %s %s (+ %s %s) y)", mem, C, lo, lo, n))
	// on a sorted slice the result is strictly increasing
	if es == "Str" || es == "Int" {
		lt := func(a, b string) string {
			if es == "Str" {
				return "(slt " + a + " " + b + ")"
			}
			return "(< " + a + " " + b + ")"
		}
		sorted := fmt.Sprintf("(forall ((q1 Int) (q2 Int)) (! (=> (and (<= %[1]s q1) (<= q1 q2) (< q2 %[2]s)) (not %[3]s)) :pattern ((select %[4]s q1) (select %[4]s q2))))", lo, hi, lt("(select "+A+" q2)", "(select "+A+" q1)"), A)
		strict := fmt.Sprintf("(forall ((q1 Int) (q2 Int)) (! (=> (and (<= %[1]s q1) (< q1 q2) (< q2 (+ %[1]s %[2]s))) %[3]s) :pattern ((select %[4]s q1) (select %[4]s q2))))", lo, n, lt("(select "+C+" q1)", "(select "+C+" q2)"), C)
		g.fact("(=> " + sorted + " " + strict + ")")
	}
	g.writeRef(fr, st, and(reach, "(< 1 (slength "+s+"))"), k, base, in.Pos())
	g.set(st, k, fmt.Sprintf("(store %s %s %s)", E, base, C), base)
	r := g.name("compacted", "Slice", fmt.Sprintf("(mk-slice (sbase %[1]s) (soff %[1]s) %[2]s (scap %[1]s))", s, n))
	g.fact("(= (send " + r + ") (+ " + lo + " " + n + "))")
	return &Val{t: r, ty: args[0].ty}
}

// slices.Replace(s, i, j, v...) with v not overlapping s.
func (g *Gen) slicesReplace(fr *Frame, in ssa.Instruction, args []*Val, st *State, reach string) *Val {
	s, i, j, v := args[0].t, args[1].t, args[2].t, args[3].t
	el := args[0].ty.Underlying().(*types.Slice).Elem()
	k := g.keyElem(el)
	es := g.sort(el)
	E := g.get(st, k)
	g.require("bounds", "slices.Replace bounds", g.posOf(in.Pos()), reach, and("(<= 0 "+i+")", "(<= "+i+" "+j+")", "(<= "+j+" (slength "+s+"))"))
	base := g.name("base", "Int", "(sbase "+s+")")
	g.require("frame", "slices.Replace: no overlap", g.posOf(in.Pos()), reach, not("(= "+base+" (sbase "+v+"))"))
	A := g.name("arr", "(Array Int "+es+")", sel(E, base))
	B := g.name("arr", "(Array Int "+es+")", sel(E, "(sbase "+v+")"))
	C := g.fresh("repl", "(Array Int "+es+")")
	fr2 := g.freshRef(g.alloc(st), "grown")
	inpl := g.fresh("inplace", "Bool")
	nb := g.name("base", "Int", ite(inpl, base, fr2))
	n := g.name("n", "Int", fmt.Sprintf("(+ (- (slength %s) (- %s %s)) (slength %s))", s, j, i, v))
	nc := g.fresh("cap", "Int")
	g.fact("(<= " + n + " " + nc + ")")
	g.fact(imp(inpl, and("(<= "+n+" (scap "+s+"))", "(= "+nc+" (scap "+s+"))")))
	o := g.name("off", "Int", "(soff "+s+")")
	g.fact(fmt.Sprintf("(forall ((q Int)) (! (=> (< q (+ %[1]s %[2]s)) (= (select %[3]s q) (select %[4]s q))) :pattern ((select %[3]s q)) :pattern ((select %[4]s q))))", o, i, C, A))
	g.fact(fmt.Sprintf("(forall ((q Int)) (! (=> (and (<= (+ %[1]s %[2]s) q) (< q (+ %[1]s %[2]s (slength %[5]s)))) (= (select %[3]s q) (select %[4]s (+ (soff %[5]s) (- q (+ %[1]s %[2]s)))))) :pattern ((select %[3]s q))))", o, i, C, B, v))
	g.fact(fmt.Sprintf("(forall ((q Int)) (! (=> (and (<= (soff %[5]s) q) (< q (+ (soff %[5]s) (slength %[5]s)))) (= (select %[4]s q) (select %[3]s (+ %[1]s %[2]s (- q (soff %[5]s)))))) :pattern ((select %[4]s q))))", o, i, C, B, v))
	g.fact(fmt.Sprintf("(forall ((q Int)) (! (=> (and (<= (+ %[1]s %[2]s (slength %[5]s)) q) (< q (+ %[1]s %[7]s))) (= (select %[3]s q) (select %[4]s (+ %[6]s (- q (slength %[5]s)) (- %[2]s))))) :pattern ((select %[3]s q))))", o, i, C, A, v, j, n))
	g.fact(fmt.Sprintf("(forall ((q Int)) (! (=> (and (<= (+ %[1]s %[6]s) q) (< q (+ %[1]s (slength %[8]s)))) (= (select %[4]s q) (select %[3]s (+ (- q %[6]s) %[2]s (slength %[5]s))))) :pattern ((select %[4]s q))))", o, i, C, A, v, j, n, s))
	// membership
	mem := g.memFn(es)
	oi, oj, e, e2 := g.name("from", "Int", "(+ "+o+" "+i+")"), g.name("to", "Int", "(+ "+o+" "+j+")"), g.name("end", "Int", "(send "+s+")"), g.name("end", "Int", "(+ "+o+" "+n+")")
	inA := fmt.Sprintf("(= (%[1]s %[2]s %[3]s %[6]s y) (or (%[1]s %[2]s %[3]s %[4]s y) (%[1]s %[2]s %[4]s %[5]s y) (%[1]s %[2]s %[5]s %[6]s y)))", mem, A, o, oi, oj, e)
	inC := fmt.Sprintf("(= (%[1]s %[7]s %[3]s %[8]s y) (or (%[1]s %[2]s %[3]s %[4]s y) (%[1]s %[9]s (soff %[10]s) (send %[10]s) y) (%[1]s %[2]s %[5]s %[6]s y)))", mem, A, o, oi, oj, e, C, e2, B, v)
	g.fact(fmt.Sprintf("(forall ((y %[1]s) (o Int) (h Int)) (! (=> (and (= o %[4]s) (= h %[5]s)) (and %[6]s %[7]s)) :pattern ((%[2]s %[3]s o h y))))", es, mem, A, o, e, inA, inC))
	g.fact(fmt.Sprintf("(forall ((y %[1]s) (o Int) (h Int)) (! (=> (and (= o %[4]s) (= h %[5]s)) (and %[6]s %[7]s)) :pattern ((%[2]s %[3]s o h y))))", es, mem, C, o, e2, inA, inC))
	g.fact(fmt.Sprintf("(forall ((y %[1]s) (o Int) (h Int)) (! (=> (and (= o (soff %[4]s)) (= h (send %[4]s))) %[5]s) :pattern ((%[2]s %[3]s o h y))))", es, mem, B, v, inC))
	g.writeRef(fr, st, and(reach, inpl), k, base, in.Pos())
	g.set(st, k, fmt.Sprintf("(store %s %s %s)", E, nb, C), base)
	r := g.name("replaced", "Slice", fmt.Sprintf("(mk-slice %s %s %s %s)", nb, o, n, nc))
	g.fact("(= (send " + r + ") " + e2 + ")")
	return &Val{t: r, ty: args[0].ty}
}

// (*sync.Map).Range with a function that only deletes the key it is given.
func (g *Gen) mapRange(fr *Frame, in ssa.Instruction, args []*Val, c *ssa.CallCommon, st *State, reach string, bind func([]*Val)) bool {
	con := g.sp.contracts["sync.(Map).Range"]
	if args[1].clo == nil || con == nil {
		return false
	}
	g.exts["sync.(Map).Range"] = true
	// one generic iteration: the content of the map is arbitrary, the key and value are those of an entry
	keys := []string{}
	for _, k := range sortedKeys(g.sp.ghosts) {
		if strings.HasPrefix(k, "sync.Map.") {
			keys = append(keys, g.keyGhost(k))
		}
	}
	m := args[0].t
	g.nonNil(reach, m, in.Pos())
	// values in an arbitrary intermediate state
	mid := st.clone()
	for _, k := range keys {
		nv := g.fresh(shortKey(k), g.keys[k].sort)
		g.fact(fmt.Sprintf("(forall ((r Int)) (! (=> (not (= r %s)) (= (select %s r) (select %s r))) :pattern ((select %s r))))", m, nv, g.get(st, k), nv))
		mid.m[k] = nv
	}
	any := types.Universe.Lookup("any").Type()
	k, v := g.fresh("rk", "Val"), g.fresh("rv", "Val")
	res, after, _ := g.inline(fr, in, args[1].clo.fn, args[1].clo.binds, []*Val{{t: k, ty: any}, {t: v, ty: any}}, mid, reach)
	if len(res) != 1 || after == nil {
		g.unsupported(in, reach, "Range function")
		bind(nil)
		return true
	}
	for kk, t := range after.m {
		if mid.m[kk] == t || strings.HasPrefix(kk, "G:sync.Map.") || g.keys[kk].kind == 'A' || g.keys[kk].kind == 'P' {
			continue
		}
		g.unsupported(in, reach, "Range function writes "+kk)
	}
	// contract of Range: every key present at the start and never touched by others is visited once,
	// unless the function returns false; the postcondition is stated for the function's effect below.
	e := &Env{g: g, names: map[string]TV{"m": {m, args[0].ty}, "k": {k, any}, "v": {v, any}, "r": {res[0].t, tBool}}, st: after, old: mid, pkg: con.pkg}
	for i, q := range con.requires {
		if len(g.conc) > 0 {
			break // the function is run on what is there; nothing is said about the content
		}
		g.emitGoal("precondition", fmt.Sprintf("Range function %s", clauseName(q, i)), g.posOf(in.Pos()), reach, e, q.e)
	}
	for _, kk := range keys {
		g.writeRef(fr, st, reach, kk, m, in.Pos())
	}
	old := st.clone()
	for _, kk := range keys {
		nv := g.fresh(shortKey(kk), g.keys[kk].sort)
		g.fact(fmt.Sprintf("(forall ((r Int)) (! (=> (not (= r %s)) (= (select %s r) (select %s r))) :pattern ((select %s r))))", m, nv, g.get(st, kk), nv))
		g.set(st, kk, nv, m)
	}
	pe := &Env{g: g, names: map[string]TV{"m": {m, args[0].ty}}, st: st, old: old, pkg: con.pkg}
	g.interfere(st, reach)
	for _, q := range con.ensures {
		if len(g.conc) > 0 {
			break
		}
		g.factIf(reach, pe.bool(q.e))
	}
	bind(nil)
	return true
}

func (g *Gen) startRec() *Recorder {
	r := &Recorder{keys: map[string]*KeyInfo{}, refs: map[string][]string{}, n0: g.n}
	g.recs = append(g.recs, r)
	return r
}
func (g *Gen) stopRec() { g.recs = g.recs[:len(g.recs)-1] }

// expandDefs substitutes the definitions among the facts into a term.
func (g *Gen) expandDefs(facts []string, term string, n0 int, vars map[string]bool) string {
	defs := map[string]string{}
	for _, f := range facts {
		if strings.HasPrefix(f, "(= ") {
			x := parseSexp(f)
			if len(x.kids) == 3 && x.kids[1].atom != "" && strings.Contains(x.kids[1].atom, "!") {
				if _, ok := defs[x.kids[1].atom]; !ok {
					defs[x.kids[1].atom] = x.kids[2].String()
				}
			}
		}
	}
	for d := 0; d < 200; d++ {
		m := map[string]string{}
		for _, a := range atomsOf(term) {
			if r, ok := defs[a]; ok && !vars[a] {
				m[a] = r
			}
		}
		if len(m) == 0 {
			return term
		}
		term = replaceAtoms(term, m)
		if len(term) > 100000 {
			return ""
		}
	}
	return ""
}

func (g *Gen) detFn(key string, argSorts []string, res types.Type) string {
	n := "det_" + sanitize(key)
	g.decl(n, fmt.Sprintf("(declare-fun %s (%s Int) %s)", n, strings.Join(argSorts, " "), g.sort(res)))
	return n
}

func (e *Env) detCall(x *Expr, key string, args []TV, ep string) TV {
	g := e.g
	if ep == "" {
		ep = g.get(e.st, g.keyEpoch())
	}
	var sig *types.Signature
	if f := g.byKey[key]; f != nil {
		sig = f.Signature
	} else if it := g.ifaceByKey[key]; it != nil {
		o, _, _ := types.LookupFieldOrMethod(it.t, false, nil, it.m)
		if fn, ok := o.(*types.Func); ok {
			sig = fn.Type().(*types.Signature)
		}
	}
	if sig == nil {
		e.fail(x, "det: unknown function %s", key)
	}
	rt := sig.Results().At(0).Type()
	var srts, ts []string
	for _, a := range args {
		srts = append(srts, g.sort(a.ty))
		ts = append(ts, a.t)
	}
	g.detUsed[key] = true
	n := g.detFn(key, srts, rt)
	return TV{"(" + n + " " + strings.Join(append(ts, ep), " ") + ")", rt}
}

var _ = token.NoPos

// interfere: other goroutines change what is shared, and keep what all keep.
func (g *Gen) interfere(st *State, reach string) {
	if len(g.conc) == 0 || g.entry == nil {
		return
	}
	for _, a := range g.conc {
		ki := g.keys[a.key]
		n := g.fresh("other", strings.TrimSuffix(strings.TrimPrefix(ki.sort, "(Array Int "), ")"))
		g.set(st, a.key, fmt.Sprintf("(store %s %s %s)", g.get(st, a.key), a.ref, n), a.ref)
	}
	for _, c := range g.con.shared {
		g.factIf(reach, g.sharedEnv(st).bool(c.e))
	}
}

func (g *Gen) sharedEnv(st *State) *Env {
	e := *g.entryEnv
	e.st = st
	return &e
}

// guarantee: an operation on shared state keeps what all keep.
func (g *Gen) guarantee(st *State, reach, key, pos string) {
	if len(g.conc) == 0 {
		return
	}
	for k, c := range g.con.shared {
		g.emitGoal("guarantee", fmt.Sprintf("guarantee %s after %s", clauseName(c, k), key), pos, reach, g.sharedEnv(st), c.e)
	}
}

// lockOp: locks, in functions that run at the same time as others: no goroutine takes a lock that it holds.
func (g *Gen) lockOp(in ssa.Instruction, key string, args []*Val, st *State, reach string) bool {
	if len(g.conc) == 0 {
		return false
	}
	v := ""
	switch key {
	case "sync.(Mutex).Lock", "sync.(RWMutex).Lock", "sync.(RWMutex).RLock":
		v = "true"
	case "sync.(Mutex).Unlock", "sync.(RWMutex).Unlock", "sync.(RWMutex).RUnlock":
		v = "false"
	default:
		return false
	}
	g.exts[key] = true
	h := g.keyHeld()
	now := sel(g.get(st, h), args[0].t)
	if v == "true" {
		g.require("lock", "the lock is not held yet", g.posOf(in.Pos()), reach, not(now))
	} else {
		g.require("lock", "the lock is held", g.posOf(in.Pos()), reach, now)
	}
	g.set(st, h, fmt.Sprintf("(store %s %s %s)", g.get(st, h), args[0].t, v), args[0].t)
	g.interfere(st, reach)
	return true
}

func (g *Gen) keyHeld() string { return g.regKey("H:locks", "(Array Int Bool)", 'H', tBool, nil) }
