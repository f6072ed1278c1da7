package main

// Symbolic execution of SSA functions: states are merged at joins, loops are cut by invariants,
// calls are replaced by contracts (or inlined when the callee has none).

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Val is the symbolic value of an SSA value.
type Val struct {
	t   string
	ty  types.Type
	tup []*Val
	lv  *LV
	clo *Clo
	// a slice of known constant length over a fresh array (varargs)
	vlen int
}

type Clo struct {
	fn    *ssa.Function
	binds []*Val
}

type step struct {
	field int
	idx   string
	ty    types.Type // type of the container
}

// LV is an address.
type LV struct {
	key  string
	ref  string // "" for locals
	off  string // element index
	path []step
	ty   types.Type // type of the location
	rty  types.Type // type of the root
	fidx int        // field index of the root (kind H)
}

type Frame struct {
	fn     *ssa.Function
	vals   map[ssa.Value]*Val
	prefix string
	path   string // like prefix, for the names of invariants: calls by callee and order
	parent *Frame
	defers []*ssa.Defer
	dstate map[*ssa.Defer]string // reach condition
	depth  int
	loops  map[*ssa.BasicBlock]*Loop
	cache  map[*ssa.BasicBlock]*Recorder
	binds  []*Val
	noinv  bool
}

type Edge struct {
	from *ssa.BasicBlock
	cond string
	st   *State
}

type Exit struct {
	cond string
	st   *State
	res  []*Val
	pos  token.Pos
	blk  *ssa.BasicBlock
}

type Recorder struct {
	keys map[string]*KeyInfo
	refs map[string][]string
	n0   int
	fns  map[*ssa.Function]bool
}

type Loop struct {
	head   *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	parent *Loop
	depth  int
}

type LoopInfo struct {
	name     string
	pos      string
	measures []*Cand
	auto     bool // terminates by construction
	dead     bool
	reach    string
}

func (g *Gen) posOf(p token.Pos) string {
	if p == token.NoPos {
		return ""
	}
	ps := g.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(ps.Filename, g.repo+"/"), ps.Line)
}

// --- obligations ---------------------------------------------------------

func (g *Gen) require(kind, label, pos, reach, goal string) *Oblig {
	f := imp(reach, goal)
	if g.dry > 0 {
		return nil
	}
	if f == "true" {
		g.trivial++
		return nil
	}
	o := &Oblig{id: len(g.oblig), label: label, kind: kind, goal: f, nfacts: len(g.facts), at: g.at, fn: g.name0, pos: pos}
	g.oblig = append(g.oblig, o)
	if kind != "termination" {
		g.fact(f)
	}
	return o
}

func (g *Gen) unsupported(i ssa.Instruction, reach, msg string) {
	pos := ""
	if i != nil {
		pos = g.posOf(i.Pos())
	}
	g.require("unsupported", "unsupported: "+msg, pos, reach, "false")
	if g.dry == 0 {
		g.unsup = append(g.unsup, pos+": "+msg)
	}
}

func (g *Gen) factIf(reach, f string) { g.fact(imp(reach, f)) }

// --- state access ---------------------------------------------------------

func (g *Gen) set(st *State, key, term string, ref string) {
	for _, r := range g.recs {
		r.keys[key] = g.keys[key]
		dup := false
		for _, x := range r.refs[key] {
			if x == ref {
				dup = true
			}
		}
		if !dup {
			r.refs[key] = append(r.refs[key], ref)
		}
	}
	st.m[key] = g.name(shortKey(key), g.keys[key].sort, term)
}

func shortKey(k string) string {
	s := sanitize(k)
	if len(s) > 24 {
		s = s[:24]
	}
	return s
}

func (g *Gen) alloc(st *State) string {
	k := g.keyAlloc()
	a := g.get(st, k)
	g.set(st, k, "(+ "+a+" 1)", "")
	return a
}

func (g *Gen) a0() string { return g.get(g.entry, g.keyAlloc()) }

// writeRef notes a write to a heap location: it must be fresh or in the assigns clause.
func (g *Gen) writeRef(fr *Frame, st *State, reach, key, ref string, pos token.Pos) {
	if g.entry == nil {
		return
	}
	fresh := not(g.isOld(ref, g.a0()))
	ok := []string{fresh}
	named := false
	for _, a := range g.assigned {
		if a.key == key {
			ok = append(ok, "(= "+ref+" "+a.ref+")")
			named = true
		}
	}
	if g.freshRefs[ref] {
		return
	}
	g.require("frame", "writes only what its contract allows: "+key, g.posOf(pos), reach, or(ok...))
	if named && !g.abstractGhost(key) {
		ep := g.keyEpoch()
		n := g.fresh("epoch", "Int")
		g.set(st, ep, ite(fresh, g.get(st, ep), n), "")
	}
}

// abstractGhost: ghost state of a type none of whose methods is deterministic; since a deterministic function cannot call
// them, its result does not depend on that state.
func (g *Gen) abstractGhost(key string) bool {
	if g.keys[key].kind != 'G' {
		return false
	}
	n := strings.TrimPrefix(key, "G:")
	i := strings.LastIndexByte(n, '.')
	if i < 0 {
		return false
	}
	ty := n[:i]
	j := strings.IndexByte(ty, '.')
	if j < 0 {
		return false
	}
	pre := ty[:j] + ".(" + ty[j+1:] + ")."
	found := false
	for k, con := range g.sp.contracts {
		if strings.HasPrefix(k, pre) {
			found = true
			if con.det || !con.extern {
				return false
			}
		}
	}
	return found
}

type assign struct{ key, ref string }

// loadWF gives facts about a value of type t just loaded from cur (initial term init) at ref.
func (g *Gen) loadWF(st *State, reach string, t types.Type, v string, cur, init, ref string) {
	for _, f := range g.wf(t, v, g.get(st, g.keyAlloc())) {
		g.fact(f)
	}
	if g.entry != nil && ref != "" && hasRef(g.Ctx, t) {
		if cur == init {
			for _, f := range g.wf(t, v, g.a0()) {
				g.fact(imp(g.isOld(ref, g.a0()), f))
			}
		} else if init != "" {
			for _, f := range g.wf(t, v, g.a0()) {
				g.fact(imp(and(g.isOld(ref, g.a0()), "(= "+sel(cur, ref)+" "+sel(init, ref)+")"), f))
			}
		}
	}
}

func (g *Gen) rootTerm(st *State, lv *LV) string {
	t := g.get(st, lv.key)
	if lv.ref != "" {
		t = sel(t, lv.ref)
	}
	if lv.off != "" {
		t = sel(t, lv.off)
	}
	return t
}

func (g *Gen) loadLV(st *State, reach string, lv *LV) *Val {
	if lv.key == "" { // whole struct behind a pointer
		return g.loadStruct(st, reach, lv.ty, lv.ref)
	}
	if k := g.keys[lv.key]; k.kind == 'L' {
		if c, ok := g.cloLocals[lv.key]; ok && len(lv.path) == 0 {
			return &Val{t: "0", ty: lv.ty, clo: c}
		}
	}
	t := g.rootTerm(st, lv)
	for _, s := range lv.path {
		if s.idx == "" {
			g.sort(s.ty)
			t = "(" + fieldSel(s.ty, s.field) + " " + t + ")"
		} else {
			t = g.arrGet(s.ty, t, s.idx)
		}
	}
	if !isAtom(t) {
		t = g.name("v", g.sort(lv.ty), t)
	}
	init := ""
	if lv.ref != "" {
		init = g.get(newState(), lv.key)
		g.loadWF(st, reach, lv.ty, t, g.get(st, lv.key), init, lv.ref)
	} else {
		g.loadWF(st, reach, lv.ty, t, "", "", "")
	}
	if g.keys[lv.key].kind == 'E' && len(lv.path) == 0 && !g.noElemInv {
		if f := g.elemInv(lv.ty, t, st); f != "" {
			g.factIf(reach, f)
		}
	}
	return &Val{t: t, ty: lv.ty}
}

func (g *Gen) loadStruct(st *State, reach string, t types.Type, ref string) *Val {
	if at, ok := t.Underlying().(*types.Array); ok {
		el := sel(g.get(st, g.keyElem(at.Elem())), ref)
		s := "(mk_" + g.sort(t)
		for i := int64(0); i < at.Len(); i++ {
			s += " " + sel(el, fmt.Sprint(i))
		}
		return &Val{t: g.name("v", g.sort(t), s+")"), ty: t}
	}
	su, ok := t.Underlying().(*types.Struct)
	if !ok {
		k := g.keyCell(t)
		v := g.name("v", g.sort(t), sel(g.get(st, k), ref))
		g.loadWF(st, reach, t, v, g.get(st, k), g.get(newState(), k), ref)
		return &Val{t: v, ty: t}
	}
	s := "(mk_" + g.sort(t)
	for i := 0; i < su.NumFields(); i++ {
		k := g.keyField(t, i)
		s += " " + sel(g.get(st, k), ref)
	}
	if su.NumFields() == 0 {
		return &Val{t: "mk_" + g.sort(t), ty: t}
	}
	v := g.name("v", g.sort(t), s+")")
	for _, f := range g.wf(t, v, g.get(st, g.keyAlloc())) {
		g.fact(f)
	}
	return &Val{t: v, ty: t}
}

func (g *Gen) storeLV(fr *Frame, st *State, reach string, lv *LV, v *Val, pos token.Pos) {
	if lv.key == "" {
		if at, ok := lv.ty.Underlying().(*types.Array); ok {
			k := g.keyElem(at.Elem())
			g.writeRef(fr, st, reach, k, lv.ref, pos)
			arr := sel(g.get(st, k), lv.ref)
			for i := int64(0); i < at.Len(); i++ {
				arr = fmt.Sprintf("(store %s %d %s)", arr, i, g.arrGet(lv.ty, v.t, fmt.Sprint(i)))
			}
			g.set(st, k, fmt.Sprintf("(store %s %s %s)", g.get(st, k), lv.ref, arr), lv.ref)
			return
		}
		su, ok := lv.ty.Underlying().(*types.Struct)
		if !ok {
			k := g.keyCell(lv.ty)
			g.writeRef(fr, st, reach, k, lv.ref, pos)
			g.set(st, k, fmt.Sprintf("(store %s %s %s)", g.get(st, k), lv.ref, v.t), lv.ref)
			return
		}
		for i := 0; i < su.NumFields(); i++ {
			k := g.keyField(lv.ty, i)
			g.writeRef(fr, st, reach, k, lv.ref, pos)
			g.set(st, k, fmt.Sprintf("(store %s %s (%s %s))", g.get(st, k), lv.ref, fieldSel(lv.ty, i), v.t), lv.ref)
		}
		return
	}
	if g.keys[lv.key].kind == 'L' && v.clo != nil && len(lv.path) == 0 {
		g.cloLocals[lv.key] = v.clo
		return
	}
	if lv.ref != "" {
		g.writeRef(fr, st, reach, lv.key, lv.ref, pos)
	}
	if g.keys[lv.key].kind == 'X' && !isInit(g.fn) {
		g.require("frame", "writes no package variable: "+lv.key[2:], g.posOf(pos), reach, "false")
	}
	if g.keys[lv.key].kind == 'E' && len(lv.path) == 0 {
		if f := g.elemInv(lv.ty, v.t, st); f != "" {
			g.require("invariant", "element invariant of "+typeName(lv.ty), g.posOf(pos), reach, f)
		}
	}
	root := g.rootTerm(st, lv)
	nv := g.update(root, lv.path, v.t)
	switch {
	case lv.ref == "":
		g.set(st, lv.key, nv, "")
	case lv.off == "":
		g.set(st, lv.key, fmt.Sprintf("(store %s %s %s)", g.get(st, lv.key), lv.ref, nv), lv.ref)
	default:
		cur := g.get(st, lv.key)
		g.set(st, lv.key, fmt.Sprintf("(store %s %s (store %s %s %s))", cur, lv.ref, sel(cur, lv.ref), lv.off, nv), lv.ref)
	}
}

func (g *Gen) update(root string, path []step, v string) string {
	if len(path) == 0 {
		return v
	}
	s := path[0]
	if s.idx != "" {
		return g.arrSet(s.ty, root, s.idx, g.update(g.arrGet(s.ty, root, s.idx), path[1:], v))
	}
	su := s.ty.Underlying().(*types.Struct)
	out := "(mk_" + g.sort(s.ty)
	for i := 0; i < su.NumFields(); i++ {
		f := "(" + fieldSel(s.ty, i) + " " + root + ")"
		if i == s.field {
			f = g.update(f, path[1:], v)
		}
		out += " " + f
	}
	return out + ")"
}

// --- values ----------------------------------------------------------------

func (g *Gen) val(fr *Frame, st *State, v ssa.Value) *Val {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return &Val{t: g.zero(c.Type()), ty: c.Type()}
		}
		if c.Value.Kind() == constant.Float || c.Value.Kind() == constant.Complex {
			return &Val{t: g.fresh("float", g.sort(c.Type())), ty: c.Type()}
		}
		tv := g.constTV(c.Value, c.Type())
		return &Val{t: tv.t, ty: c.Type()}
	case *ssa.Global:
		el := deref(c.Type())
		return &Val{ty: c.Type(), lv: &LV{key: g.keyGlobal(c), ty: el, rty: el}}
	case *ssa.Function:
		return &Val{t: "0", ty: c.Type(), clo: &Clo{fn: c}}
	case *ssa.Builtin:
		return &Val{t: "0", ty: c.Type()}
	}
	if x, ok := fr.vals[v]; ok {
		return x
	}
	// value of an enclosing function or of an unreachable block
	x := &Val{t: g.fresh("undef", g.sort(v.Type())), ty: v.Type()}
	fr.vals[v] = x
	return x
}

func isInit(f *ssa.Function) bool {
	return f != nil && f.Signature.Recv() == nil && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#"))
}

func (g *Gen) keyGlobal(v *ssa.Global) string {
	t := deref(v.Type())
	name := v.Pkg.Pkg.Name() + "." + v.Name()
	k := "X:" + name
	if g.keys[k] == nil {
		g.regKey(k, g.sort(t), 'X', t, nil)
	}
	return k
}

// term of a value used as data
func (g *Gen) term(fr *Frame, st *State, reach string, v ssa.Value) string {
	x := g.val(fr, st, v)
	return g.valTerm(x, v, reach)
}

func (g *Gen) valTerm(x *Val, v ssa.Value, reach string) string {
	if x.t == "" && x.lv != nil {
		lv := x.lv
		if k := g.keys[lv.key]; k != nil && k.kind == 'H' && len(lv.path) == 0 {
			return g.fieldAddr(lv.ref, lv.fidx)
		}
		if lv.key == "" {
			return lv.ref
		}
		var i ssa.Instruction
		if v != nil {
			i, _ = v.(ssa.Instruction)
		}
		g.unsupported(i, reach, "address used as a value")
		x.t = g.fresh("addr", "Int")
	}
	if x.t == "" {
		x.t = g.fresh("undef", g.sort(x.ty))
	}
	return x.t
}

func (g *Gen) isLocalAlloc(v ssa.Value) bool {
	if b, ok := g.localCache[v]; ok {
		return b
	}
	r := g.localUse(v, 0)
	if a, ok := v.(*ssa.Alloc); ok {
		t := deref(a.Type())
		if _, isS := t.Underlying().(*types.Struct); isS && !g.transparent(t) {
			r = false
		}
		if at, isA := t.Underlying().(*types.Array); isA && at.Len() > 8 {
			r = false
		}
	}
	g.localCache[v] = r
	return r
}

func (g *Gen) localUse(v ssa.Value, d int) bool {
	if d > 10 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
			if r.Op != token.MUL {
				return false
			}
		case *ssa.Store:
			if r.Addr != v {
				return false
			}
		case *ssa.FieldAddr:
			if !g.localUse(r, d+1) {
				return false
			}
		case *ssa.IndexAddr:
			if !g.localUse(r, d+1) {
				return false
			}
		case *ssa.MakeClosure:
			f := r.Fn.(*ssa.Function)
			for i, b := range r.Bindings {
				if b == v && !g.localUse(f.FreeVars[i], d+1) {
					return false
				}
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// --- functions --------------------------------------------------------------

func (g *Gen) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := g.loopCache[fn]; ok {
		return l
	}
	ls := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				l := ls[s]
				if l == nil {
					l = &Loop{head: s, body: map[*ssa.BasicBlock]bool{s: true}}
					ls[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.body[b] {
					l.body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.body[p] {
							l.body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	g.loopCache[fn] = ls
	return ls
}

// loopNo is the number of a loop among those of its function.
func (g *Gen) loopNo(fn *ssa.Function, l *Loop) int {
	n := 1
	for h := range g.loopsOf(fn) {
		if h.Index < l.head.Index {
			n++
		}
	}
	return n
}

// callNo is the number of a call among those of the same function in the caller.
func callNo(in ssa.Instruction, fn *ssa.Function) int {
	n := 1
	for _, b := range in.Parent().Blocks {
		for _, i := range b.Instrs {
			if i == in {
				return n
			}
			if c, ok := i.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
				n++
			}
		}
	}
	return n
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				visit(b.Succs[i])
			}
		}
		out = append(out, b)
	}
	visit(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// loopOrder sorts blocks topologically such that the blocks of a loop are contiguous enough:
// exits of a loop are processed after the whole loop because the loop is handled as one unit.
func (g *Gen) runFn(fr *Frame, st *State, reach string) []Exit {
	if len(fr.fn.Blocks) == 0 {
		g.unsupported(nil, reach, "no body: "+fr.fn.String())
		return nil
	}
	fr.loops = g.loopsOf(fr.fn)
	fr.cache = map[*ssa.BasicBlock]*Recorder{}
	for _, b := range fr.fn.Blocks { // irreducible control flow cannot be handled
		for _, s := range b.Succs {
			if fr.loops[s] == nil && rpoIndex(fr.fn, s) <= rpoIndex(fr.fn, b) && s != b && !s.Dominates(b) {
				if inCycle(b, s) {
					g.unsupported(nil, reach, "irreducible loop in "+fr.fn.String())
				}
			}
		}
	}
	ctl := &Control{in: map[*ssa.BasicBlock][]Edge{}}
	ctl.in[fr.fn.Blocks[0]] = []Edge{{nil, reach, st}}
	g.runBlocks(fr, rpo(fr.fn), nil, ctl)
	return ctl.exits
}

func rpoIndex(fn *ssa.Function, b *ssa.BasicBlock) int { return b.Index }

func inCycle(b, s *ssa.BasicBlock) bool {
	// is b reachable from s?
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{s}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			// reachable; only a problem when s does not dominate b and no other header breaks the cycle
			return !reducibleCycle(b, s)
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

func reducibleCycle(b, s *ssa.BasicBlock) bool {
	// every cycle through the edge b->s must contain a back edge to a dominator; paths from s to b without such an edge: none
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{s}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return false
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		for _, y := range x.Succs {
			if !y.Dominates(x) {
				st = append(st, y)
			}
		}
	}
	return true
}

type Control struct {
	in    map[*ssa.BasicBlock][]Edge
	exits []Exit
	// back edges collected for the loop being executed
	head   *ssa.BasicBlock
	back   []Edge
	parent *Control
	isHead bool
}

// runBlocks executes the blocks (in reverse postorder); cur is the loop whose body they are.
func (g *Gen) runBlocks(fr *Frame, order []*ssa.BasicBlock, cur *Loop, ctl *Control) {
	done := map[*ssa.BasicBlock]bool{}
	// loops are executed as units; blocks after a loop may come before some of its blocks in
	// reverse postorder, so a block is delayed until its predecessors outside back edges are done.
	pending := append([]*ssa.BasicBlock{}, order...)
	for len(pending) > 0 {
		progress := false
		var next []*ssa.BasicBlock
		for _, b := range pending {
			if done[b] {
				progress = true
				continue
			}
			ready := true
			if !(cur != nil && b == cur.head) {
				for _, p := range b.Preds {
					if b.Dominates(p) {
						continue
					}
					if inOrder(order, p) && !done[p] {
						ready = false
					}
				}
			}
			if !ready {
				next = append(next, b)
				continue
			}
			progress = true
			if fr.parent == nil {
				g.at = b
			}
			l := fr.loops[b]
			if l != nil && !(cur != nil && b == cur.head) {
				edges := live(ctl.in[b])
				for x := range l.body {
					done[x] = true
				}
				if len(edges) > 0 {
					g.runLoop(fr, l, edges, ctl)
				}
				continue
			}
			done[b] = true
			edges := live(ctl.in[b])
			if len(edges) == 0 {
				continue
			}
			var st *State
			var reach string
			if cur != nil && b == cur.head {
				st, reach = edges[0].st, edges[0].cond
			} else {
				st, reach = g.join(fr, b, edges)
			}
			g.runBlock(fr, b, st, reach, ctl)
		}
		if !progress {
			g.unsupported(nil, "true", "control flow of "+fr.fn.String())
			return
		}
		pending = next
	}
}

func inOrder(order []*ssa.BasicBlock, b *ssa.BasicBlock) bool {
	for _, x := range order {
		if x == b {
			return true
		}
	}
	return false
}

func live(es []Edge) []Edge {
	var out []Edge
	for _, e := range es {
		if e.cond != "false" {
			out = append(out, e)
		}
	}
	return out
}

// mergeStates joins states under their conditions.
func (g *Gen) mergeStates(edges []Edge) *State {
	if len(edges) == 1 {
		return edges[0].st.clone()
	}
	out := newState()
	keys := map[string]bool{}
	for _, e := range edges {
		for k := range e.st.m {
			keys[k] = true
		}
	}
	for _, k := range sortedKeys(keys) {
		if g.keys[k].kind == 'L' || g.keys[k].kind == 'I' {
			// a local that is not set on all edges is dead
			all := true
			for _, e := range edges {
				if _, ok := e.st.m[k]; !ok {
					all = false
				}
			}
			if !all {
				continue
			}
		}
		t := g.get(edges[len(edges)-1].st, k)
		for i := len(edges) - 2; i >= 0; i-- {
			t = ite(edges[i].cond, g.get(edges[i].st, k), t)
		}
		out.m[k] = g.name(shortKey(k), g.keys[k].sort, t)
	}
	return out
}

func (g *Gen) join(fr *Frame, b *ssa.BasicBlock, edges []Edge) (*State, string) {
	var cs []string
	for _, e := range edges {
		cs = append(cs, e.cond)
	}
	reach := or(cs...)
	if len(edges) > 1 {
		reach = g.name("r", "Bool", reach)
	}
	st := g.mergeStates(edges)
	for _, i := range b.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		fr.vals[phi] = g.phiVal(fr, phi, b, edges)
	}
	return st, reach
}

func (g *Gen) phiVal(fr *Frame, phi *ssa.Phi, b *ssa.BasicBlock, edges []Edge) *Val {
	get := func(e Edge) *Val {
		for k, p := range b.Preds {
			if p == e.from {
				return g.val(fr, e.st, phi.Edges[k])
			}
		}
		return &Val{t: g.fresh("undef", g.sort(phi.Type())), ty: phi.Type()}
	}
	if len(edges) == 1 {
		v := *get(edges[0])
		return &v
	}
	v0 := get(edges[len(edges)-1])
	t := g.valTerm(v0, phi, edges[len(edges)-1].cond)
	for i := len(edges) - 2; i >= 0; i-- {
		t = ite(edges[i].cond, g.valTerm(get(edges[i]), phi, edges[i].cond), t)
	}
	r := &Val{t: g.name("phi_"+sanitize(phi.Comment), g.sort(phi.Type()), t), ty: phi.Type()}
	if v0.clo != nil {
		same := true
		for _, e := range edges {
			if c := get(e).clo; c == nil || c.fn != v0.clo.fn {
				same = false
			}
		}
		if same {
			r.clo = v0.clo
		}
	}
	return r
}

func (g *Gen) runBlock(fr *Frame, b *ssa.BasicBlock, st *State, reach string, ctl *Control) {
	for _, i := range b.Instrs {
		g.checkFilled(fr, i, st, reach)
		switch i := i.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := g.term(fr, st, reach, i.Cond)
			g.edge(b, b.Succs[0], and2(g, reach, c), st, ctl)
			g.edge(b, b.Succs[1], and2(g, reach, not(c)), st.clone(), ctl)
			return
		case *ssa.Jump:
			g.edge(b, b.Succs[0], reach, st, ctl)
			return
		case *ssa.Return:
			ex := Exit{cond: reach, st: st, pos: i.Pos(), blk: b}
			for _, r := range i.Results {
				v := g.val(fr, st, r)
				g.valTerm(v, r, reach)
				ex.res = append(ex.res, v)
			}
			root := ctl
			for root.parent != nil {
				root = root.parent
			}
			root.exits = append(root.exits, ex)
			return
		case *ssa.Panic:
			g.require("panic", "no explicit panic", g.posOf(i.Pos()), reach, "false")
			return
		default:
			reach = g.instr(fr, i, st, reach)
		}
	}
}

func and2(g *Gen, a, b string) string {
	x := and(a, b)
	if isAtom(x) {
		return x
	}
	return g.name("r", "Bool", x)
}

func (g *Gen) edge(from, to *ssa.BasicBlock, cond string, st *State, ctl *Control) {
	if cond == "false" {
		return
	}
	e := Edge{from, cond, st}
	for c := ctl; c != nil; c = c.parent {
		if c.head != nil && to == c.head {
			c.back = append(c.back, e)
			return
		}
	}
	ctl.in[to] = append(ctl.in[to], e)
}

// --- instructions -------------------------------------------------------------

func isUnsigned(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch b.Kind() {
		case types.Uint8:
			return 8
		case types.Uint16:
			return 16
		case types.Uint32:
			return 32
		}
	}
	return 0
}

func (g *Gen) instr(fr *Frame, in ssa.Instruction, st *State, reach string) string {
	pos := in.Pos()
	def := func(v ssa.Value, t string) {
		if !isAtom(t) {
			nm := v.Name()
			t = g.name(nm, g.sort(v.Type()), t)
		}
		fr.vals[v] = &Val{t: t, ty: v.Type()}
	}
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		g.doAlloc(fr, i, st, reach)
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			x := g.val(fr, st, i.X)
			if x.lv != nil {
				ia, isIndex := i.X.(*ssa.IndexAddr)
				g.noElemInv = isIndex && g.filledLater(ia.X) != nil
				v := g.loadLV(st, reach, x.lv)
				g.noElemInv = false
				fr.vals[i] = v
				// an element read from a slice of strings is a member of it
				if ia, ok := i.X.(*ssa.IndexAddr); ok && v.t != "" && g.sort(v.ty) == "Str" {
					if _, ok := ia.X.Type().Underlying().(*types.Slice); ok {
						s := g.term(fr, st, reach, ia.X)
						g.factIf(reach, fmt.Sprintf("(%s %s (soff %s) (send %s) %s)", g.memFn("Str"), sel(g.get(st, x.lv.key), "(sbase "+s+")"), s, s, v.t))
					}
				}
				return reach
			}
			p := g.term(fr, st, reach, i.X)
			g.nonNil(reach, p, pos)
			fr.vals[i] = g.loadStruct(st, reach, deref(i.X.Type()), p)
		case token.NOT:
			def(i, not(g.term(fr, st, reach, i.X)))
		case token.SUB:
			def(i, "(- "+g.term(fr, st, reach, i.X)+")")
		default:
			g.unsupported(i, reach, "operator "+i.Op.String())
			def(i, g.fresh("v", g.sort(i.Type())))
		}
	case *ssa.BinOp:
		def(i, g.binop(fr, i, st, reach))
	case *ssa.Store:
		a := g.val(fr, st, i.Addr)
		v := g.val(fr, st, i.Val)
		if v.clo == nil {
			g.valTerm(v, i.Val, reach)
		}
		if a.lv != nil {
			g.storeLV(fr, st, reach, a.lv, v, pos)
			return reach
		}
		p := g.term(fr, st, reach, i.Addr)
		g.nonNil(reach, p, pos)
		t := deref(i.Addr.Type())
		g.storeLV(fr, st, reach, &LV{ref: p, ty: t}, v, pos)
	case *ssa.FieldAddr:
		x := g.val(fr, st, i.X)
		t := deref(i.X.Type())
		su := t.Underlying().(*types.Struct)
		ft := su.Field(i.Field).Type()
		if x.lv != nil && x.lv.key != "" {
			lv := *x.lv
			lv.path = append(append([]step{}, lv.path...), step{field: i.Field, ty: t})
			lv.ty = ft
			fr.vals[i] = &Val{ty: i.Type(), lv: &lv}
			return reach
		}
		p := g.term(fr, st, reach, i.X)
		g.nonNil(reach, p, pos)
		if !g.transparent(t) {
			g.unsupported(i, reach, "field of "+t.String())
		}
		if fs, isS := ft.Underlying().(*types.Struct); isS && !g.transparent(ft) {
			_ = fs
			def(i, g.fieldAddr(p, i.Field))
			return reach
		}
		fr.vals[i] = &Val{ty: i.Type(), lv: &LV{key: g.keyField(t, i.Field), ref: p, ty: ft, rty: ft, fidx: i.Field}}
	case *ssa.Field:
		x := g.term(fr, st, reach, i.X)
		g.sort(i.X.Type())
		def(i, "("+fieldSel(i.X.Type(), i.Field)+" "+x+")")
	case *ssa.IndexAddr:
		x := g.val(fr, st, i.X)
		ix := g.term(fr, st, reach, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Slice:
			s := g.term(fr, st, reach, i.X)
			g.require("bounds", "index in range", g.posOf(pos), reach, and("(<= 0 "+ix+")", "(< "+ix+" (slength "+s+"))"))
			fr.vals[i] = &Val{ty: i.Type(), lv: &LV{key: g.keyElem(u.Elem()), ref: "(sbase " + s + ")", off: ixAt("(soff "+s+")", ix), ty: u.Elem(), rty: u.Elem()}}
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			if !(isNum(ix) && len(ix) < 10) {
				g.require("bounds", "index in range", g.posOf(pos), reach, and("(<= 0 "+ix+")", fmt.Sprintf("(< %s %d)", ix, at.Len())))
			}
			if x.lv != nil {
				lv := *x.lv
				lv.path = append(append([]step{}, lv.path...), step{idx: ix, ty: u.Elem()})
				lv.ty = at.Elem()
				fr.vals[i] = &Val{ty: i.Type(), lv: &lv}
				return reach
			}
			p := g.term(fr, st, reach, i.X)
			g.nonNil(reach, p, pos)
			fr.vals[i] = &Val{ty: i.Type(), lv: &LV{key: g.keyElem(at.Elem()), ref: p, off: ix, ty: at.Elem(), rty: at.Elem()}}
		}
	case *ssa.Index:
		x := g.term(fr, st, reach, i.X)
		ix := g.term(fr, st, reach, i.Index)
		switch u := i.X.Type().Underlying().(type) {
		case *types.Basic:
			g.require("bounds", "index in range", g.posOf(pos), reach, and("(<= 0 "+ix+")", "(< "+ix+" (slen "+x+"))"))
			def(i, "(sat "+x+" "+ix+")")
		case *types.Array:
			g.require("bounds", "index in range", g.posOf(pos), reach, and("(<= 0 "+ix+")", fmt.Sprintf("(< %s %d)", ix, u.Len())))
			def(i, g.arrGet(i.X.Type(), x, ix))
		}
	case *ssa.Lookup:
		x := g.term(fr, st, reach, i.X)
		ix := g.term(fr, st, reach, i.Index)
		m, isMap := i.X.Type().Underlying().(*types.Map)
		if !isMap {
			g.require("bounds", "index in range", g.posOf(pos), reach, and("(<= 0 "+ix+")", "(< "+ix+" (slen "+x+"))"))
			def(i, "(sat "+x+" "+ix+")")
			return reach
		}
		kd, kv := g.keyDom(m), g.keyVal(m)
		has := g.name("has", "Bool", sel(sel(g.get(st, kd), x), ix))
		v := g.name("mv", g.sort(m.Elem()), ite(has, sel(sel(g.get(st, kv), x), ix), g.zero(m.Elem())))
		init := g.get(newState(), kv)
		g.loadWF(st, reach, m.Elem(), v, g.get(st, kv), init, x)
		if i.CommaOk {
			fr.vals[i] = &Val{ty: i.Type(), tup: []*Val{{t: v, ty: m.Elem()}, {t: has, ty: tBool}}}
		} else {
			fr.vals[i] = &Val{t: v, ty: m.Elem()}
		}
	case *ssa.MapUpdate:
		m := i.Map.Type().Underlying().(*types.Map)
		x := g.term(fr, st, reach, i.Map)
		k := g.term(fr, st, reach, i.Key)
		v := g.term(fr, st, reach, i.Value)
		g.require("nil", "map is not nil", g.posOf(pos), reach, not("(= "+x+" 0)"))
		g.mapStore(fr, st, reach, m, x, k, v, pos)
	case *ssa.MakeMap:
		m := i.Type().Underlying().(*types.Map)
		r := g.alloc(st)
		r = g.freshRef(r, "map_"+sanitize(i.Name()))
		kd := g.keyDom(m)
		g.keyVal(m)
		g.set(st, kd, fmt.Sprintf("(store %s %s %s)", g.get(st, kd), r, g.emptySet(m.Key())), r)
		fr.vals[i] = &Val{t: r, ty: i.Type()}
	case *ssa.MakeSlice:
		n := g.term(fr, st, reach, i.Len)
		c := g.term(fr, st, reach, i.Cap)
		g.require("bounds", "make: 0 <= len <= cap", g.posOf(pos), reach, and("(<= 0 "+n+")", "(<= "+n+" "+c+")"))
		el := i.Type().Underlying().(*types.Slice).Elem()
		r := g.freshRef(g.alloc(st), "sl_"+sanitize(i.Name()))
		k := g.keyElem(el)
		s := g.sort(el)
		if f := g.elemInv(el, g.zero(el), st); f != "" && g.filledLater(i) == nil {
			g.require("invariant", "element invariant of "+typeName(el), g.posOf(pos), reach, or("(= "+n+" 0)", f))
		}
		g.set(st, k, fmt.Sprintf("(store %s %s ((as const (Array Int %s)) %s))", g.get(st, k), r, s, g.zero(el)), r)
		def(i, fmt.Sprintf("(mk-slice %s 0 %s %s)", r, n, c))
	case *ssa.Slice:
		g.doSlice(fr, i, st, reach, def)
	case *ssa.Convert:
		g.doConvert(fr, i, st, reach, def)
	case *ssa.ChangeType:
		x := *g.val(fr, st, i.X)
		x.ty = i.Type()
		if x.t == "" && x.lv == nil {
			g.valTerm(&x, i.X, reach)
		}
		if x.t != "" && g.sort(i.X.Type()) != g.sort(i.Type()) {
			// same structure, other name
			if su, ok := i.Type().Underlying().(*types.Struct); ok && g.transparent(i.Type()) && g.transparent(i.X.Type()) {
				t := "(mk_" + g.sort(i.Type())
				for k := 0; k < su.NumFields(); k++ {
					t += " (" + fieldSel(i.X.Type(), k) + " " + x.t + ")"
				}
				def(i, t+")")
				return reach
			}
			g.unsupported(i, reach, "conversion")
		}
		fr.vals[i] = &x
	case *ssa.ChangeInterface:
		x := *g.val(fr, st, i.X)
		x.ty = i.Type()
		fr.vals[i] = &x
	case *ssa.MakeInterface:
		x := g.term(fr, st, reach, i.X)
		if f := g.typeInv(i.X.Type(), x, st); f != "" {
			g.require("invariant", "type invariant of "+typeName(i.X.Type()), g.posOf(pos), reach, f)
		}
		def(i, g.box(i.X.Type(), x))
		g.fact("(< (valalloc " + fr.vals[i].t + ") " + g.get(st, g.keyAlloc()) + ")")
	case *ssa.TypeAssert:
		g.doTypeAssert(fr, i, st, reach)
	case *ssa.Extract:
		x := g.val(fr, st, i.Tuple)
		if x.tup != nil && i.Index < len(x.tup) {
			fr.vals[i] = x.tup[i.Index]
		} else {
			fr.vals[i] = &Val{t: g.fresh("ex", g.sort(i.Type())), ty: i.Type()}
		}
	case *ssa.MakeClosure:
		c := &Clo{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.binds = append(c.binds, g.val(fr, st, b))
		}
		fr.vals[i] = &Val{t: "0", ty: i.Type(), clo: c}
	case *ssa.Range:
		g.doRange(fr, i, st, reach)
	case *ssa.Next:
		g.doNext(fr, i, st, reach)
	case *ssa.Call:
		return g.doCall(fr, i, st, reach)
	case *ssa.Defer:
		fr.defers = append(fr.defers, i)
		fr.dstate[i] = reach
		for _, a := range i.Call.Args {
			g.val(fr, st, a)
		}
	case *ssa.RunDefers:
		for k := len(fr.defers) - 1; k >= 0; k-- {
			d := fr.defers[k]
			if !d.Block().Dominates(i.Block()) {
				if reachable(d.Block(), i.Block()) {
					g.unsupported(i, reach, "conditional defer")
				}
				continue
			}
			reach = g.callCommon(fr, d, &d.Call, nil, st, reach)
		}
	default:
		g.unsupported(in, reach, fmt.Sprintf("instruction %T", in))
		if v, ok := in.(ssa.Value); ok {
			fr.vals[v] = &Val{t: g.fresh("v", g.sort(v.Type())), ty: v.Type()}
		}
	}
	return reach
}

func reachable(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	st := []*ssa.BasicBlock{a}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		st = append(st, x.Succs...)
	}
	return false
}

func (g *Gen) freshRef(r, prefix string) string {
	c := g.fresh(prefix, "Int")
	g.fact("(= " + c + " " + r + ")")
	g.freshRefs[c] = true
	if g.entry != nil {
		g.fact(and("(<= "+g.a0()+" "+c+")", "(< 0 "+c+")"))
	} else {
		g.fact("(< 0 " + c + ")")
	}
	return c
}

func (g *Gen) nonNil(reach, p string, pos token.Pos) {
	if g.freshRefs[p] || g.knownNonNil[p] {
		return
	}
	g.require("nil", "pointer is not nil", g.posOf(pos), reach, not("(= "+p+" 0)"))
}

func (g *Gen) doAlloc(fr *Frame, i *ssa.Alloc, st *State, reach string) {
	t := deref(i.Type())
	if g.isLocalAlloc(i) {
		k := "L:" + fr.prefix + i.Name() + "_" + sanitize(i.Comment)
		if g.keys[k] == nil {
			g.regKey(k, g.sort(t), 'L', t, nil)
		}
		delete(g.cloLocals, k)
		if g.isFuncType(t) {
			fr.vals[i] = &Val{ty: i.Type(), lv: &LV{key: k, ty: t, rty: t}}
			return
		}
		g.set(st, k, g.zero(t), "")
		fr.vals[i] = &Val{ty: i.Type(), lv: &LV{key: k, ty: t, rty: t}}
		return
	}
	r := g.freshRef(g.alloc(st), "new_"+sanitize(i.Name()))
	switch u := t.Underlying().(type) {
	case *types.Array:
		k := g.keyElem(u.Elem())
		g.set(st, k, fmt.Sprintf("(store %s %s ((as const (Array Int %s)) %s))", g.get(st, k), r, g.sort(u.Elem()), g.zero(u.Elem())), r)
	case *types.Struct:
		g.initStruct(st, t, r, 0)
	default:
		k := g.keyCell(t)
		g.set(st, k, fmt.Sprintf("(store %s %s %s)", g.get(st, k), r, g.zero(t)), r)
	}
	fr.vals[i] = &Val{t: r, ty: i.Type()}
}

func (g *Gen) isFuncType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

func (g *Gen) initStruct(st *State, t types.Type, r string, d int) {
	if !g.transparent(t) {
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() == nil {
			return
		}
		p := n.Obj().Pkg().Name() + "." + n.Obj().Name() + "."
		for _, k := range sortedKeys(g.sp.ghosts) {
			if strings.HasPrefix(k, p) {
				kk := g.keyGhost(k)
				g.set(st, kk, fmt.Sprintf("(store %s %s %s)", g.get(st, kk), r, g.ghostZero(g.keys[kk].ty)), r)
			}
		}
		return
	}
	u := t.Underlying().(*types.Struct)
	for f := 0; f < u.NumFields(); f++ {
		ft := u.Field(f).Type()
		if _, isS := ft.Underlying().(*types.Struct); isS && !g.transparent(ft) {
			g.initStruct(st, ft, g.fieldAddr(r, f), d+1)
			continue
		}
		k := g.keyField(t, f)
		g.set(st, k, fmt.Sprintf("(store %s %s %s)", g.get(st, k), r, g.zero(ft)), r)
	}
}

func (g *Gen) ghostZero(t types.Type) string {
	switch u := t.(type) {
	case *SetT:
		return g.emptySet(u.K)
	case *ArrT:
		return fmt.Sprintf("((as const %s) %s)", g.sort(t), g.ghostZero(u.Elem))
	}
	return g.zero(t)
}

func (g *Gen) mapStore(fr *Frame, st *State, reach string, m *types.Map, x, k, v string, pos token.Pos) {
	kd, kv := g.keyDom(m), g.keyVal(m)
	g.writeRef(fr, st, reach, kd, x, pos)
	d := g.get(st, kd)
	vv := g.get(st, kv)
	g.set(st, kd, fmt.Sprintf("(store %s %s (store %s %s true))", d, x, sel(d, x), k), x)
	g.set(st, kv, fmt.Sprintf("(store %s %s (store %s %s %s))", vv, x, sel(vv, x), k, v), x)
}

func (g *Gen) binop(fr *Frame, i *ssa.BinOp, st *State, reach string) string {
	xv, yv := g.val(fr, st, i.X), g.val(fr, st, i.Y)
	a, b := g.valTerm(xv, i.X, reach), g.valTerm(yv, i.Y, reach)
	xt := i.X.Type()
	srt := g.sort(xt)
	switch i.Op {
	case token.EQL, token.NEQ:
		t := g.eq(xt, i.Y.Type(), a, b, i.X, i.Y)
		if i.Op == token.NEQ {
			return not(t)
		}
		return t
	}
	if srt == "Str" {
		switch i.Op {
		case token.ADD:
			return "(scat " + a + " " + b + ")"
		case token.LSS:
			return "(slt " + a + " " + b + ")"
		case token.GTR:
			return "(slt " + b + " " + a + ")"
		case token.LEQ:
			return not("(slt " + b + " " + a + ")")
		case token.GEQ:
			return not("(slt " + a + " " + b + ")")
		}
	}
	if isFloat(xt) {
		return g.fresh("float", g.sort(i.Type()))
	}
	if isNum(a) && isNum(b) || (a == "(- 1)" && isNum(b)) { // fold
		var x, y int64
		if a == "(- 1)" {
			x = -1
		} else {
			fmt.Sscan(a, &x)
		}
		fmt.Sscan(b, &y)
		tf := func(c bool) string {
			if c {
				return "true"
			}
			return "false"
		}
		if isUnsigned(i.Type()) == 0 && x < 1<<30 && y < 1<<30 {
			switch i.Op {
			case token.ADD:
				return num(x + y)
			case token.SUB:
				return num(x - y)
			case token.LSS:
				return tf(x < y)
			case token.LEQ:
				return tf(x <= y)
			case token.GTR:
				return tf(x > y)
			case token.GEQ:
				return tf(x >= y)
			}
		}
	}
	wrap := func(t string) string {
		if n := isUnsigned(i.Type()); n != 0 {
			return fmt.Sprintf("(mod %s %d)", t, int64(1)<<n)
		}
		return t
	}
	switch i.Op {
	case token.ADD:
		return wrap(add(a, b))
	case token.SUB:
		return wrap("(- " + a + " " + b + ")")
	case token.MUL:
		return wrap("(* " + a + " " + b + ")")
	case token.QUO:
		g.require("div", "divisor is not zero", g.posOf(i.Pos()), reach, not("(= "+b+" 0)"))
		// truncated division
		return fmt.Sprintf("(ite (>= %[1]s 0) (div %[1]s %[2]s) (- (div (- %[1]s) %[2]s)))", a, b)
	case token.REM:
		g.require("div", "divisor is not zero", g.posOf(i.Pos()), reach, not("(= "+b+" 0)"))
		return fmt.Sprintf("(ite (>= %[1]s 0) (mod %[1]s %[2]s) (- (mod (- %[1]s) %[2]s)))", a, b)
	case token.LSS:
		return "(< " + a + " " + b + ")"
	case token.LEQ:
		return "(<= " + a + " " + b + ")"
	case token.GTR:
		return "(> " + a + " " + b + ")"
	case token.GEQ:
		return "(>= " + a + " " + b + ")"
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if g.sort(i.Type()) == "Bool" {
			if i.Op == token.AND {
				return and(a, b)
			}
			return or(a, b)
		}
		if i.Op == token.SHL && isNum(b) && len(b) < 3 {
			var y int
			fmt.Sscan(b, &y)
			return wrap(fmt.Sprintf("(* %s %d)", a, int64(1)<<y))
		}
		n := "bitop_" + map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.SHL: "shl", token.SHR: "shr", token.AND_NOT: "andnot"}[i.Op]
		g.decl(n, "(declare-fun "+n+" (Int Int) Int)")
		return "(" + n + " " + a + " " + b + ")"
	}
	g.unsupported(i, reach, "operator "+i.Op.String())
	return g.fresh("v", g.sort(i.Type()))
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (g *Gen) eq(xt, yt types.Type, a, b string, x, y ssa.Value) string {
	switch xt.Underlying().(type) {
	case *types.Slice:
		if a == "nilslice" {
			a, b = b, a
		}
		return "(= (sbase " + a + ") 0)"
	case *types.Interface:
		if !types.IsInterface(yt) {
			b = g.box(yt, b)
		}
	default:
		if types.IsInterface(yt) {
			a = g.box(xt, a)
		}
	}
	if g.sort(xt) == "Str" {
		la, lb := g.litOf(a), g.litOf(b)
		if la != nil && lb != nil {
			if *la == *lb {
				return "true"
			}
			return "false"
		}
		if la != nil {
			a, b, lb = b, a, la
		}
		if lb != nil && len(*lb) <= 40 && !strings.Contains(a, "!q") {
			g.litEq(a, *lb)
		}
	}
	if a == b {
		return "true"
	}
	return "(= " + a + " " + b + ")"
}

// litEq states that s is the literal exactly if its bytes are.
func (g *Gen) litEq(s, l string) {
	c := []string{fmt.Sprintf("(= (slen %s) %d)", s, len(l))}
	for i := 0; i < len(l); i++ {
		c = append(c, fmt.Sprintf("(= (sat %s %d) %d)", s, i, l[i]))
	}
	g.fact("(= (= " + s + " " + g.lit(l) + ") " + and(c...) + ")")
}

func (g *Gen) litOf(t string) *string {
	if t == "emptystr" {
		s := ""
		return &s
	}
	if !strings.HasPrefix(t, "lit") {
		return nil
	}
	for s, c := range g.lits {
		if c == t {
			return &s
		}
	}
	return nil
}

func (g *Gen) doSlice(fr *Frame, i *ssa.Slice, st *State, reach string, def func(ssa.Value, string)) {
	pos := g.posOf(i.Pos())
	lo, hi := "0", ""
	if i.Low != nil {
		lo = g.term(fr, st, reach, i.Low)
	}
	if i.High != nil {
		hi = g.term(fr, st, reach, i.High)
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Basic:
		x := g.term(fr, st, reach, i.X)
		if hi == "" {
			hi = "(slen " + x + ")"
		}
		g.require("bounds", "slice bounds in range", pos, reach, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" (slen "+x+"))"))
		if lo == "0" && hi == "(slen "+x+")" {
			def(i, x)
			return
		}
		def(i, "(ssub "+x+" "+lo+" "+hi+")")
		r := fr.vals[i].t
		g.factIf(reach, "(= (slen "+r+") (- "+hi+" "+lo+"))")
	case *types.Slice:
		x := g.term(fr, st, reach, i.X)
		max := "(scap " + x + ")"
		if i.Max != nil {
			max = g.term(fr, st, reach, i.Max)
			g.require("bounds", "slice bounds in range", pos, reach, "(<= "+max+" (scap "+x+"))")
		}
		if hi == "" {
			hi = "(slength " + x + ")"
			g.require("bounds", "slice bounds in range", pos, reach, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")"))
		} else {
			g.require("bounds", "slice bounds in range", pos, reach, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" "+max+")"))
			if f := g.elemInv(u.Elem(), g.zero(u.Elem()), st); f != "" {
				g.require("invariant", "element invariant of "+typeName(u.Elem()), pos, reach, or(f, "(<= "+hi+" (slength "+x+"))"))
			}
		}
		def(i, fmt.Sprintf("(mk-slice (sbase %[1]s) %[4]s (- %[3]s %[2]s) (- %[5]s %[2]s))", x, lo, hi, add("(soff "+x+")", lo), max))
		g.factIf(reach, and(g.wf(i.Type(), fr.vals[i].t, g.get(st, g.keyAlloc()))...))
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := g.term(fr, st, reach, i.X)
		g.nonNil(reach, p, i.Pos())
		n := fmt.Sprint(at.Len())
		if hi == "" {
			hi = n
		}
		if i.Low != nil || i.High != nil {
			g.require("bounds", "slice bounds in range", pos, reach, and("(<= 0 "+lo+")", "(<= "+lo+" "+hi+")", "(<= "+hi+" "+n+")"))
			def(i, fmt.Sprintf("(mk-slice %s %s (- %s %s) (- %s %s))", p, lo, hi, lo, n, lo))
			return
		}
		def(i, fmt.Sprintf("(mk-slice %s 0 %s %s)", p, n, n))
		fr.vals[i].vlen = int(at.Len()) + 1
	}
}

func (g *Gen) doConvert(fr *Frame, i *ssa.Convert, st *State, reach string, def func(ssa.Value, string)) {
	x := g.term(fr, st, reach, i.X)
	from, to := i.X.Type().Underlying(), i.Type().Underlying()
	fb, fIsB := from.(*types.Basic)
	tb, tIsB := to.(*types.Basic)
	switch {
	case fIsB && tIsB && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		def(i, x)
	case tIsB && tb.Info()&types.IsString != 0 && fIsB && fb.Info()&types.IsInteger != 0:
		def(i, "(runestr "+x+")")
		g.fact(fmt.Sprintf("(<= 1 (slen %s))", fr.vals[i].t))
	case tIsB && tb.Info()&types.IsString != 0:
		if sl, ok := from.(*types.Slice); ok && g.sort(sl.Elem()) == "Int" && isUnsigned(sl.Elem()) == 8 {
			def(i, g.bytesStr(sel(g.get(st, g.keyElem(sl.Elem())), "(sbase "+x+")"), x))
			return
		}
		g.unsupported(i, reach, "conversion to string")
		def(i, g.fresh("v", "Str"))
	case fIsB && fb.Info()&types.IsString != 0:
		sl, ok := to.(*types.Slice)
		if ok && isUnsigned(sl.Elem()) == 8 {
			r := g.freshRef(g.alloc(st), "bytes")
			k := g.keyElem(sl.Elem())
			arr := g.fresh("barr", "(Array Int Int)")
			g.fact(fmt.Sprintf("(forall ((j Int)) (! (= (select %s j) (sat %s j)) :pattern ((select %s j))))", arr, x, arr))
			g.set(st, k, fmt.Sprintf("(store %s %s %s)", g.get(st, k), r, arr), r)
			def(i, fmt.Sprintf("(mk-slice %s 0 (slen %s) (slen %s))", r, x, x))
			// converting back gives the string again
			g.fact("(= " + g.bytesStr(arr, fr.vals[i].t) + " " + x + ")")
			return
		}
		g.unsupported(i, reach, "conversion from string")
		def(i, g.fresh("v", g.sort(i.Type())))
	case fIsB && tIsB:
		if isFloat(i.X.Type()) || isFloat(i.Type()) {
			def(i, g.fresh("float", g.sort(i.Type())))
			return
		}
		if n := isUnsigned(i.Type()); n != 0 {
			if m := isUnsigned(i.X.Type()); m != 0 && m <= n {
				def(i, x)
			} else {
				def(i, fmt.Sprintf("(mod %s %d)", x, int64(1)<<n))
			}
			return
		}
		def(i, x)
	default:
		g.unsupported(i, reach, "conversion")
		def(i, g.fresh("v", g.sort(i.Type())))
	}
}

// bytesStr is the string with the bytes of a slice.
func (g *Gen) bytesStr(arr, s string) string {
	g.decl("bstr", `(declare-fun bstr ((Array Int Int) Int Int) Str)
(assert (forall ((a (Array Int Int)) (o Int) (n Int)) (! (=> (<= 0 n) (= (slen (bstr a o n)) n)) :pattern ((bstr a o n)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (j Int)) (! (=> (and (<= 0 j) (< j n)) (= (sat (bstr a o n) j) (select a (+ o j)))) :pattern ((sat (bstr a o n) j)))))
(assert (forall ((a (Array Int Int)) (o Int) (n Int) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j n)) (= (ssub (bstr a o n) i j) (bstr a (+ o i) (- j i)))) :pattern ((ssub (bstr a o n) i j)))))`)
	return fmt.Sprintf("(bstr %s (soff %s) (slength %s))", arr, s, s)
}

func (g *Gen) implTerm(v string, t types.Type) string {
	n := "impl_" + typeName(t)
	g.decl(n, "(declare-fun "+n+" (Int) Bool)\n(assert (not ("+n+" 0)))")
	g.ifaces[n] = t
	return "(" + n + " (tagof " + v + "))"
}

func (g *Gen) doTypeAssert(fr *Frame, i *ssa.TypeAssert, st *State, reach string) {
	x := g.term(fr, st, reach, i.X)
	var ok, v string
	if types.IsInterface(i.AssertedType) {
		ok = g.implTerm(x, i.AssertedType)
		v = x
		if it := i.AssertedType.Underlying().(*types.Interface); it.NumMethods() == 0 {
			ok = not("(= " + x + " nilval)")
		}
		if i.CommaOk {
			v = ite(ok, x, "nilval")
		}
	} else {
		_, ub := g.boxFn(i.AssertedType)
		ok = fmt.Sprintf("(= (tagof %s) %d)", x, g.tag(i.AssertedType))
		v = "(" + ub + " " + x + ")"
		if i.CommaOk {
			v = ite(ok, v, g.zero(i.AssertedType))
		}
	}
	ok = g.name("ok", "Bool", ok)
	if !i.CommaOk {
		g.require("assert", "type assertion holds", g.posOf(i.Pos()), reach, ok)
	}
	v = g.name("ta", g.sort(i.AssertedType), v)
	g.fact(imp(ok, and(g.wf(i.AssertedType, v, g.get(st, g.keyAlloc()))...)))
	if g.entry != nil && hasRef(g.Ctx, i.AssertedType) {
		g.fact(imp(and(ok, "(< (valalloc "+x+") "+g.a0()+")"), and(g.wf(i.AssertedType, v, g.a0())...)))
	}
	if f := g.typeInv(i.AssertedType, v, st); f != "" {
		g.factIf(and(reach, ok), f)
	}
	if f := g.treeInv(i.AssertedType, v, st); f != "" {
		g.factIf(and(reach, ok), and(f, "(= "+g.box(i.AssertedType, v)+" "+x+")"))
		g.treeUsed[typeName(i.AssertedType)] = true
	}
	if i.CommaOk {
		fr.vals[i] = &Val{ty: i.Type(), tup: []*Val{{t: v, ty: i.AssertedType}, {t: ok, ty: tBool}}}
	} else {
		fr.vals[i] = &Val{t: v, ty: i.AssertedType}
	}
}

func (g *Gen) doRange(fr *Frame, i *ssa.Range, st *State, reach string) {
	x := g.term(fr, st, reach, i.X)
	k := "I:" + fr.prefix + i.Name()
	if m, ok := i.X.Type().Underlying().(*types.Map); ok {
		if g.keys[k] == nil {
			g.regKey(k, "(Array "+g.sort(m.Key())+" Bool)", 'I', &SetT{m.Key()}, nil)
		}
		g.set(st, k, g.emptySet(m.Key()), "")
		d0 := g.name("dom0", "(Array "+g.sort(m.Key())+" Bool)", sel(g.get(st, g.keyDom(m)), x))
		fr.vals[i] = &Val{t: x, ty: i.X.Type(), tup: []*Val{{t: d0}}}
		return
	}
	if g.keys[k] == nil {
		g.regKey(k, "Int", 'I', tInt, nil)
	}
	g.set(st, k, "0", "")
	fr.vals[i] = &Val{t: x, ty: i.X.Type()}
}

func (g *Gen) doNext(fr *Frame, i *ssa.Next, st *State, reach string) {
	rng := i.Iter.(*ssa.Range)
	k := "I:" + fr.prefix + rng.Name()
	it := g.val(fr, st, rng)
	if i.IsString {
		p := g.get(st, k)
		ok := g.name("ok", "Bool", "(< "+p+" (slen "+it.t+"))")
		g.runeFns()
		r := g.name("rune", "Int", fmt.Sprintf("(runeat %s %s)", it.t, p))
		w := fmt.Sprintf("(runew %s %s)", it.t, p)
		g.set(st, k, ite(ok, "(+ "+p+" "+w+")", p), "")
		fr.vals[i] = &Val{ty: i.Type(), tup: []*Val{{t: ok, ty: tBool}, {t: p, ty: tInt}, {t: r, ty: types.Typ[types.Int32]}}}
		return
	}
	m := rng.X.Type().Underlying().(*types.Map)
	kd, kv := g.keyDom(m), g.keyVal(m)
	vis := g.get(st, k)
	ok := g.fresh("ok", "Bool")
	key := g.fresh("k_"+sanitize(rng.Name()), g.sort(m.Key()))
	d := sel(g.get(st, kd), it.t)
	v := g.name("mv", g.sort(m.Elem()), sel(sel(g.get(st, kv), it.t), key))
	g.fact(imp(and(reach, ok), and(sel(d, key), not(sel(vis, key)))))
	d0 := d
	if it.tup != nil {
		d0 = it.tup[0].t
	}
	g.fact(imp(and(reach, not(ok), "(= "+d+" "+d0+")"), fmt.Sprintf("(forall ((kk %s)) (! (=> (select %s kk) (select %s kk)) :pattern ((select %s kk)) :pattern ((select %s kk))))", g.sort(m.Key()), d0, vis, d0, vis)))
	g.loadWF(st, reach, m.Elem(), v, g.get(st, kv), g.get(newState(), kv), it.t)
	for _, f := range g.wf(m.Key(), key, g.get(st, g.keyAlloc())) {
		g.fact(f)
	}
	g.set(st, k, ite(ok, fmt.Sprintf("(store %s %s true)", vis, key), vis), "")
	fr.vals[i] = &Val{ty: i.Type(), tup: []*Val{{t: ok, ty: tBool}, {t: key, ty: m.Key()}, {t: v, ty: m.Elem()}}}
}

func (g *Gen) runeFns() {
	g.decl("runeat", `(declare-fun runeat (Str Int) Int)
(declare-fun runew (Str Int) Int)
(assert (forall ((s Str) (p Int)) (! (and (<= 1 (runew s p)) (<= (runew s p) 4) (<= 0 (runeat s p)) (<= (runeat s p) 1114111)) :pattern ((runeat s p)))))
(assert (forall ((s Str) (p Int)) (! (=> (and (<= 0 p) (< p (slen s))) (and (<= (+ p (runew s p)) (slen s)) (=> (< (sat s p) 128) (and (= (runeat s p) (sat s p)) (= (runew s p) 1))) (=> (>= (sat s p) 128) (>= (runeat s p) 128)))) :pattern ((runeat s p)))))`)
}

// filledLater: v is a new slice that the function fills before it gives it to anyone else, so that the
// invariant of its elements has to hold from there on only (checkFilled).
func (g *Gen) filledLater(v ssa.Value) *ssa.MakeSlice {
	m, ok := v.(*ssa.MakeSlice)
	if !ok {
		return nil
	}
	for _, r := range *m.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.Return, *ssa.MakeInterface:
		case *ssa.IndexAddr:
			for _, u := range *r.Referrers() {
				switch u := u.(type) {
				case *ssa.DebugRef:
				case *ssa.UnOp:
				case *ssa.Store:
					if u.Val == r {
						return nil
					}
				default:
					return nil
				}
			}
		case *ssa.Store:
			if r.Addr == v {
				return nil
			}
		case ssa.CallInstruction:
			if _, ok := r.(*ssa.Call); !ok {
				return nil
			}
		default:
			return nil
		}
	}
	return m
}

// checkFilled: a slice that is filled later is filled when it leaves the hands of the function.
func (g *Gen) checkFilled(fr *Frame, in ssa.Instruction, st *State, reach string) {
	switch i := in.(type) {
	case *ssa.Return, *ssa.MakeInterface, *ssa.Store:
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return
		}
	default:
		return
	}
	for _, op := range in.Operands(nil) {
		if *op == nil {
			continue
		}
		m := g.filledLater(*op)
		if m == nil {
			continue
		}
		el := m.Type().Underlying().(*types.Slice).Elem()
		s := g.term(fr, st, reach, m)
		at := sel(sel(g.get(st, g.keyElem(el)), "(sbase "+s+")"), "(ix (soff "+s+") k)")
		if f := g.elemInv(el, at, st); f != "" {
			g.require("invariant", "element invariant of "+typeName(el), g.posOf(in.Pos()), reach, fmt.Sprintf("(forall ((k Int)) (! (=> (and (<= 0 k) (< k (slength %s))) %s) :pattern (%s)))", s, f, at))
		}
	}
}
