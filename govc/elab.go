package main

// Elaboration of specification expressions into SMT terms.

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// TV is a typed term.
type TV struct {
	t  string
	ty types.Type
}

// State maps state variables to terms. A missing key stands for its value at function entry.
type State struct{ m map[string]string }

func newState() *State { return &State{m: map[string]string{}} }
func (s *State) clone() *State {
	n := newState()
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

type Env struct {
	g     *Gen
	names map[string]TV
	st    *State
	old   *State
	pkg   *SpecPkg
	depth int
	pure  bool // no state: axioms
}

type elabErr struct{ msg string }

func (e *Env) fail(x *Expr, f string, a ...any) {
	panic(elabErr{fmt.Sprintf("%s:%d: %s", x.file, x.line, fmt.Sprintf(f, a...))})
}

func (e *Env) with(names map[string]TV) *Env {
	n := *e
	n.names = map[string]TV{}
	for k, v := range e.names {
		n.names[k] = v
	}
	for k, v := range names {
		n.names[k] = v
	}
	return &n
}

func (g *Gen) resolveType(t *TypeX, pk *SpecPkg) types.Type {
	switch t.kind {
	case "ptr":
		return types.NewPointer(g.resolveType(t.a, pk))
	case "slice":
		return types.NewSlice(g.resolveType(t.a, pk))
	case "map":
		return types.NewMap(g.resolveType(t.a, pk), g.resolveType(t.b, pk))
	case "set":
		return &SetT{g.resolveType(t.a, pk)}
	case "arr":
		return &ArrT{tInt, g.resolveType(t.a, pk)}
	case "mmap":
		return &ArrT{g.resolveType(t.a, pk), g.resolveType(t.b, pk)}
	}
	if t.pkg == "" {
		if t.name == "rune" {
			return types.Typ[types.Int32]
		}
		if t.name == "byte" {
			return tByte
		}
		if o := types.Universe.Lookup(t.name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
	}
	pn := t.pkg
	if pn == "" {
		pn = pk.name
	}
	p := g.typesPkg(pn)
	if p == nil {
		panic(elabErr{"unknown package " + pn + " in type (" + pk.file + ")"})
	}
	o := p.Scope().Lookup(t.name)
	if o == nil {
		panic(elabErr{"unknown type " + pn + "." + t.name})
	}
	return o.Type()
}

func (g *Gen) typesPkg(name string) *types.Package {
	if p := g.pkgs[name]; p != nil {
		return p.Pkg
	}
	var found *types.Package
	for _, p := range g.prog.AllPackages() {
		if p.Pkg.Name() == name && (found == nil || len(p.Pkg.Path()) < len(found.Path())) {
			found = p.Pkg
		}
	}
	return found
}

// key helpers -------------------------------------------------------------

func (g *Gen) regKey(key, srt string, kind byte, ty, styp types.Type) string {
	if g.keys[key] == nil {
		g.keys[key] = &KeyInfo{key, srt, kind, ty, styp}
	}
	return key
}

func (g *Gen) get(st *State, key string) string {
	if t, ok := st.m[key]; ok {
		return t
	}
	c := "in_" + sanitize(key)
	k := g.keys[key]
	d := fmt.Sprintf("(declare-const %s %s)", c, k.sort)
	if k.kind == 'D' {
		d += fmt.Sprintf("\n(assert (= (select %s 0) %s))", c, g.emptySet(k.ty.Underlying().(*types.Map).Key()))
	}
	if k.kind == 'A' {
		d += fmt.Sprintf("\n(assert (<= 1 %s))", c)
	}
	g.decl(c, d)
	if k.kind == 'X' && !isInit(g.fn) {
		g.globalInvs(key[2:])
	}
	return c
}

// globalInvs: package variables have their initial value (they are assigned nowhere else), of which invariants are known.
func (g *Gen) globalInvs(name string) {
	for i, gi := range g.sp.globals {
		for _, v := range gi.vars {
			if gi.pkg.name+"."+v == name {
				k := fmt.Sprintf("globalinv%d", i)
				if g.seen[k] {
					continue
				}
				g.seen[k] = true
				e := &Env{g: g, names: map[string]TV{}, pkg: gi.pkg, st: newState(), old: newState()}
				t := e.bool(gi.e)
				g.decls = append(g.decls, "(assert "+t+") ; package variables")
				g.calls[gi.pkg.name+".init"] = true
			}
		}
	}
}

func (g *Gen) emptySet(k types.Type) string {
	return fmt.Sprintf("((as const (Array %s Bool)) false)", g.sort(k))
}

func (g *Gen) keyField(st types.Type, i int) string {
	f := st.Underlying().(*types.Struct).Field(i)
	return g.regKey("H:"+typeName(st)+"."+f.Name(), "(Array Int "+g.sort(f.Type())+")", 'H', f.Type(), st)
}
func (g *Gen) keyCell(t types.Type) string {
	return g.regKey("C:"+typeName(t), "(Array Int "+g.sort(t)+")", 'C', t, nil)
}
func (g *Gen) keyElem(t types.Type) string {
	s := g.sort(t)
	return g.regKey("E:"+typeName(t), "(Array Int (Array Int "+s+"))", 'E', t, nil)
}
func (g *Gen) keyDom(m *types.Map) string {
	return g.regKey("D:"+typeName(m), "(Array Int (Array "+g.sort(m.Key())+" Bool))", 'D', m, nil)
}
func (g *Gen) keyVal(m *types.Map) string {
	return g.regKey("V:"+typeName(m), "(Array Int (Array "+g.sort(m.Key())+" "+g.sort(m.Elem())+"))", 'V', m, nil)
}
func (g *Gen) keyGhost(name string) string {
	gd := g.sp.ghosts[name]
	t := g.resolveType(gd.t, gd.pkg)
	return g.regKey("G:"+name, "(Array Int "+g.sort(t)+")", 'G', t, nil)
}
func (g *Gen) keyAlloc() string { return g.regKey("A:", "Int", 'A', tInt, nil) }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func sel(a, i string) string { return "(select " + a + " " + i + ")" }

// elaborate

func (e *Env) bool(x *Expr) string {
	v := e.expr(x)
	if v.ty == nil || e.g.sort(v.ty) != "Bool" {
		e.fail(x, "boolean expected")
	}
	return v.t
}

func (e *Env) int(x *Expr) string {
	v := e.expr(x)
	if v.ty == nil || e.g.sort(v.ty) != "Int" {
		e.fail(x, "integer expected")
	}
	return v.t
}

func (e *Env) binders(x *Expr) (*Env, string) {
	names := map[string]TV{}
	var bs []string
	for _, v := range x.vars {
		t := e.g.resolveType(v.typ, e.pkg)
		e.g.inst++
		n := fmt.Sprintf("%s_%d", v.name, e.g.inst)
		names[v.name] = TV{n, t}
		bs = append(bs, "("+n+" "+e.g.sort(t)+")")
	}
	return e.with(names), strings.Join(bs, " ")
}

func (e *Env) expr(x *Expr) TV {
	g := e.g
	if e.depth > 200 {
		e.fail(x, "macro recursion")
	}
	switch x.op {
	case "lit-int":
		return TV{x.name, tInt}
	case "lit-str":
		return TV{g.lit(x.name), tString}
	case "id":
		if v, ok := e.names[x.name]; ok {
			return v
		}
		switch x.name {
		case "true", "false":
			return TV{x.name, tBool}
		case "nil":
			return TV{"", nil}
		case "nilval":
			return TV{"nilval", types.Universe.Lookup("any").Type()}
		case "ALLOC":
			return TV{g.get(e.st, g.keyAlloc()), tInt}
		case "EPOCH":
			return TV{g.get(e.st, g.keyEpoch()), tInt}
		}
		if m := g.sp.macros[x.name]; m != nil && len(m.params) == 0 {
			ne := *e
			ne.pkg = m.pkg
			ne.depth++
			return ne.expr(m.body)
		}
		if p := g.sp.pures[x.name]; p != nil && len(p.params) == 0 {
			return TV{g.pureFn(p), g.resolveType(p.res, p.pkg)}
		}
		if p := g.typesPkg(e.pkg.name); p != nil {
			if v, ok := e.pkgMember(p, x.name); ok {
				return v
			}
		}
		e.fail(x, "unknown name %s", x.name)
	case "field":
		if b := x.args[0]; b.op == "id" {
			if _, ok := e.names[b.name]; !ok {
				if p := g.typesPkg(b.name); p != nil {
					if v, ok := e.pkgMember(p, x.name); ok {
						return v
					}
					e.fail(x, "unknown %s.%s", b.name, x.name)
				}
			}
		}
		v := e.expr(x.args[0])
		return e.field(x, v, x.name)
	case "index":
		v := e.expr(x.args[0])
		switch u := v.ty.(type) {
		case *ArrT:
			i := e.coerce(x, e.expr(x.args[1]), u.Idx)
			return TV{sel(v.t, i.t), u.Elem}
		case *SetT:
			i := e.coerce(x, e.expr(x.args[1]), u.K)
			return TV{sel(v.t, i.t), tBool}
		}
		switch u := v.ty.Underlying().(type) {
		case *types.Slice:
			i := e.int(x.args[1])
			return TV{sel(sel(g.get(e.st, g.keyElem(u.Elem())), "(sbase "+v.t+")"), ixAt("(soff "+v.t+")", i)), u.Elem()}
		case *types.Map:
			k := e.coerce(x, e.expr(x.args[1]), u.Key())
			return TV{sel(sel(g.get(e.st, g.keyVal(u)), v.t), k.t), u.Elem()}
		case *types.Basic:
			i := e.int(x.args[1])
			return TV{"(sat " + v.t + " " + i + ")", tByte}
		case *types.Array:
			i := e.int(x.args[1])
			return TV{g.arrGet(v.ty, v.t, i), u.Elem()}
		}
		e.fail(x, "cannot index %s", v.ty)
	case "slice":
		v := e.expr(x.args[0])
		lo, hi := "0", ""
		if x.args[1] != nil {
			lo = e.int(x.args[1])
		}
		switch v.ty.Underlying().(type) {
		case *types.Basic:
			if x.args[2] != nil {
				hi = e.int(x.args[2])
			} else {
				hi = "(slen " + v.t + ")"
			}
			return TV{"(ssub " + v.t + " " + lo + " " + hi + ")", tString}
		case *types.Slice:
			if x.args[2] != nil {
				hi = e.int(x.args[2])
			} else {
				hi = "(slength " + v.t + ")"
			}
			return TV{fmt.Sprintf("(mk-slice (sbase %[1]s) (+ (soff %[1]s) %[2]s) (- %[3]s %[2]s) (- (scap %[1]s) %[2]s))", v.t, lo, hi), v.ty}
		}
		e.fail(x, "cannot slice %s", v.ty)
	case "un":
		if x.name == "!" {
			return TV{not(e.bool(x.args[0])), tBool}
		}
		return TV{"(- " + e.int(x.args[0]) + ")", tInt}
	case "bin":
		return e.bin(x)
	case "forall", "exists":
		ne, bs := e.binders(x)
		body := ne.bool(x.args[0])
		pat := ""
		for _, tr := range x.trig {
			var ts []string
			for _, t := range tr {
				ts = append(ts, ne.expr(t).t)
			}
			pat += " :pattern (" + strings.Join(ts, " ") + ")"
		}
		if pat != "" {
			body = "(! " + body + pat + ")"
		}
		return TV{"(" + x.op + " (" + bs + ") " + body + ")", tBool}
	case "is":
		v := e.expr(x.args[0])
		t := g.resolveType(x.typ, e.pkg)
		if types.IsInterface(t) {
			return TV{g.implTerm(v.t, t), tBool}
		}
		g.boxFn(t)
		return TV{fmt.Sprintf("(= (tagof %s) %d)", v.t, g.tag(t)), tBool}
	case "as":
		v := e.expr(x.args[0])
		t := g.resolveType(x.typ, e.pkg)
		_, ub := g.boxFn(t)
		return TV{"(" + ub + " " + v.t + ")", t}
	case "call":
		return e.call(x)
	}
	e.fail(x, "cannot elaborate %s", x.op)
	return TV{}
}

func add(a, b string) string {
	if a == "0" {
		return b
	}
	if b == "0" {
		return a
	}
	return "(+ " + a + " " + b + ")"
}

func (g *Gen) arrGet(t types.Type, v, i string) string {
	s := g.sort(t)
	n := int(t.Underlying().(*types.Array).Len())
	if isNum(i) {
		return fmt.Sprintf("(%s.%s %s)", s, i, v)
	}
	out := fmt.Sprintf("(%s.%d %s)", s, n-1, v)
	for k := n - 2; k >= 0; k-- {
		out = fmt.Sprintf("(ite (= %s %d) (%s.%d %s) %s)", i, k, s, k, v, out)
	}
	return out
}

func (g *Gen) arrSet(t types.Type, v, i, x string) string {
	s := g.sort(t)
	n := int(t.Underlying().(*types.Array).Len())
	out := "(mk_" + s
	for k := 0; k < n; k++ {
		old := fmt.Sprintf("(%s.%d %s)", s, k, v)
		if isNum(i) {
			if i == fmt.Sprint(k) {
				out += " " + x
			} else {
				out += " " + old
			}
		} else {
			out += fmt.Sprintf(" (ite (= %s %d) %s %s)", i, k, x, old)
		}
	}
	return out + ")"
}

func isNum(s string) bool {
	if s == "" {
		return false
	}
	for _, r := range s {
		if r < '0' || r > '9' {
			return false
		}
	}
	return true
}

func (e *Env) pkgMember(p *types.Package, name string) (TV, bool) {
	o := p.Scope().Lookup(name)
	switch o := o.(type) {
	case *types.Const:
		return e.g.constTV(o.Val(), o.Type()), true
	case *types.Var:
		g := e.g
		k := g.regKey("X:"+p.Name()+"."+name, g.sort(o.Type()), 'X', o.Type(), nil)
		return TV{g.get(e.st, k), o.Type()}, true
	}
	return TV{}, false
}

func (g *Gen) constTV(v constant.Value, t types.Type) TV {
	switch v.Kind() {
	case constant.Bool:
		if constant.BoolVal(v) {
			return TV{"true", t}
		}
		return TV{"false", t}
	case constant.String:
		return TV{g.lit(constant.StringVal(v)), t}
	case constant.Int:
		n, ok := constant.Int64Val(v)
		if ok {
			return TV{num(n), t}
		}
	}
	return TV{g.fresh("const", g.sort(t)), t}
}

func (e *Env) field(x *Expr, v TV, name string) TV {
	g := e.g
	if v.ty == nil {
		e.fail(x, "field of nil")
	}
	if d := deref(v.ty); d != nil {
		if gd := g.ghostOf(d, name); gd != "" {
			k := g.keyGhost(gd)
			return TV{sel(g.get(e.st, k), v.t), g.keys[k].ty}
		}
		if st, ok := d.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					if !g.transparent(d) {
						e.fail(x, "%s is opaque", d)
					}
					if _, isS := st.Field(i).Type().Underlying().(*types.Struct); isS && !g.transparent(st.Field(i).Type()) {
						// an embedded opaque object: its address
						return TV{g.fieldAddr(v.t, i), types.NewPointer(st.Field(i).Type())}
					}
					return TV{sel(g.get(e.st, g.keyField(d, i)), v.t), st.Field(i).Type()}
				}
			}
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Embedded() {
					if ft := st.Field(i).Type(); hasField(ft, name) {
						return e.field(x, TV{sel(g.get(e.st, g.keyField(d, i)), v.t), ft}, name)
					}
				}
			}
		}
		e.fail(x, "no field %s in %s", name, d)
	}
	if types.IsInterface(v.ty) {
		if n, ok := v.ty.(*types.Named); ok {
			if gd := g.ghostOf(n, name); gd != "" {
				k := g.keyGhost(gd)
				return TV{sel(g.get(e.st, k), "(valref "+v.t+")"), g.keys[k].ty}
			}
		}
	}
	st, ok := v.ty.Underlying().(*types.Struct)
	if ok && g.transparent(v.ty) {
		g.sort(v.ty)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return TV{"(" + fieldSel(v.ty, i) + " " + v.t + ")", st.Field(i).Type()}
			}
		}
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Embedded() {
				if ft := st.Field(i).Type(); hasField(ft, name) {
					return e.field(x, TV{"(" + fieldSel(v.ty, i) + " " + v.t + ")", ft}, name)
				}
			}
		}
	}
	e.fail(x, "no field %s in %s", name, v.ty)
	return TV{}
}

func hasField(t types.Type, name string) bool {
	if d := deref(t); d != nil {
		t = d
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return true
		}
	}
	return false
}

func (g *Gen) ghostOf(t types.Type, name string) string {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return ""
	}
	k := n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + name
	if g.sp.ghosts[k] != nil {
		return k
	}
	return ""
}

// fieldAddr is the address of a field of a heap object; such addresses are negative.
func (g *Gen) fieldAddr(ref string, i int) string {
	return fmt.Sprintf("(- (+ (* 64 %s) %d))", ref, i)
}

func (e *Env) coerce(x *Expr, v TV, t types.Type) TV {
	if v.ty == nil {
		return TV{e.g.zero(t), t}
	}
	if e.g.sort(v.ty) != e.g.sort(t) {
		if types.IsInterface(t) {
			return TV{e.g.box(v.ty, v.t), t}
		}
		e.fail(x, "type mismatch: %s and %s", v.ty, t)
	}
	return v
}

func (e *Env) bin(x *Expr) TV {
	g := e.g
	op := x.name
	switch op {
	case "&&":
		return TV{and(e.bool(x.args[0]), e.bool(x.args[1])), tBool}
	case "||":
		return TV{or(e.bool(x.args[0]), e.bool(x.args[1])), tBool}
	case "==>":
		return TV{imp(e.bool(x.args[0]), e.bool(x.args[1])), tBool}
	case "<==>":
		return TV{"(= " + e.bool(x.args[0]) + " " + e.bool(x.args[1]) + ")", tBool}
	}
	a, b := e.expr(x.args[0]), e.expr(x.args[1])
	switch op {
	case "==", "!=":
		var t string
		switch {
		case a.ty == nil && b.ty == nil:
			t = "true"
		case a.ty == nil:
			t = g.isNil(b)
		case b.ty == nil:
			t = g.isNil(a)
		default:
			if g.sort(a.ty) != g.sort(b.ty) {
				if types.IsInterface(a.ty) {
					b = TV{g.box(b.ty, b.t), a.ty}
				} else if types.IsInterface(b.ty) {
					a = TV{g.box(a.ty, a.t), b.ty}
				} else {
					e.fail(x, "cannot compare %s and %s", a.ty, b.ty)
				}
			}
			t = "(= " + a.t + " " + b.t + ")"
		}
		if op == "!=" {
			t = not(t)
		}
		return TV{t, tBool}
	case "in":
		switch u := b.ty.(type) {
		case *SetT:
			return TV{sel(b.t, e.coerce(x, a, u.K).t), tBool}
		}
		if m, ok := b.ty.Underlying().(*types.Map); ok {
			return TV{sel(sel(g.get(e.st, g.keyDom(m)), b.t), a.t), tBool}
		}
		if _, ok := b.ty.Underlying().(*types.Slice); ok {
			return TV{e.memSlice(b, a), tBool}
		}
		e.fail(x, "in: %s", b.ty)
	}
	if g.sort(a.ty) == "Str" {
		switch op {
		case "<":
			return TV{"(slt " + a.t + " " + b.t + ")", tBool}
		case "<=":
			return TV{not("(slt " + b.t + " " + a.t + ")"), tBool}
		case ">":
			return TV{"(slt " + b.t + " " + a.t + ")", tBool}
		case ">=":
			return TV{not("(slt " + a.t + " " + b.t + ")"), tBool}
		case "+":
			return TV{"(scat " + a.t + " " + b.t + ")", tString}
		}
	}
	switch op {
	case "<", "<=", ">", ">=":
		return TV{"(" + op + " " + a.t + " " + b.t + ")", tBool}
	case "+":
		return TV{add(a.t, b.t), tInt}
	case "-", "*":
		return TV{"(" + op + " " + a.t + " " + b.t + ")", tInt}
	case "/":
		return TV{"(div " + a.t + " " + b.t + ")", tInt}
	case "%":
		return TV{"(mod " + a.t + " " + b.t + ")", tInt}
	}
	e.fail(x, "operator %s", op)
	return TV{}
}

func (g *Gen) isNil(v TV) string {
	switch g.sort(v.ty) {
	case "Slice":
		return "(= (sbase " + v.t + ") 0)"
	case "Val":
		return "(= " + v.t + " nilval)"
	}
	return "(= " + v.t + " 0)"
}

func (e *Env) memSlice(s, x TV) string {
	g := e.g
	el := s.ty.Underlying().(*types.Slice).Elem()
	a := sel(g.get(e.st, g.keyElem(el)), "(sbase "+s.t+")")
	return fmt.Sprintf("(%s %s (soff %s) (send %s) %s)", g.memFn(g.sort(el)), a, s.t, s.t, x.t)
}

func (g *Gen) pureFn(p *PureDecl) string {
	n := "f_" + p.name
	if g.seen[n] {
		return n
	}
	var ps []string
	for _, b := range p.params {
		ps = append(ps, g.sort(g.resolveType(b.typ, p.pkg)))
	}
	g.decl(n, fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(ps, " "), g.sort(g.resolveType(p.res, p.pkg))))
	return n
}

func (e *Env) call(x *Expr) TV {
	g := e.g
	arg := func(i int) TV {
		if i >= len(x.args) {
			e.fail(x, "%s: too few arguments", x.name)
		}
		return e.expr(x.args[i])
	}
	switch x.name {
	case "old":
		ne := *e
		ne.st = e.old
		return ne.expr(x.args[0])
	case "len":
		v := arg(0)
		switch u := v.ty.Underlying().(type) {
		case *types.Slice:
			return TV{"(slength " + v.t + ")", tInt}
		case *types.Basic:
			return TV{"(slen " + v.t + ")", tInt}
		case *types.Array:
			return TV{fmt.Sprint(u.Len()), tInt}
		case *types.Map:
			return TV{g.mapLen(e.st, u, v.t), tInt}
		}
		e.fail(x, "len of %s", v.ty)
	case "cap":
		return TV{"(scap " + arg(0).t + ")", tInt}
	case "from":
		return TV{"(soff " + arg(0).t + ")", tInt}
	case "to":
		return TV{"(send " + arg(0).t + ")", tInt}
	case "off":
		return TV{"(soff " + arg(0).t + ")", tInt}
	case "base":
		v := arg(0)
		if g.sort(v.ty) == "Slice" {
			return TV{"(sbase " + v.t + ")", tInt}
		}
		return TV{v.t, tInt}
	case "elems":
		v := arg(0)
		s, ok := v.ty.Underlying().(*types.Slice)
		if !ok {
			e.fail(x, "elems of %s", v.ty)
		}
		return TV{sel(g.get(e.st, g.keyElem(s.Elem())), "(sbase "+v.t+")"), &ArrT{tInt, s.Elem()}}
	case "dom":
		v := arg(0)
		m := v.ty.Underlying().(*types.Map)
		return TV{sel(g.get(e.st, g.keyDom(m)), v.t), &SetT{m.Key()}}
	case "vals":
		v := arg(0)
		m := v.ty.Underlying().(*types.Map)
		return TV{sel(g.get(e.st, g.keyVal(m)), v.t), &ArrT{m.Key(), m.Elem()}}
	case "has":
		v, k := arg(0), arg(1)
		m, ok := v.ty.Underlying().(*types.Map)
		if !ok {
			e.fail(x, "has: %s", v.ty)
		}
		return TV{sel(sel(g.get(e.st, g.keyDom(m)), v.t), e.coerce(x, k, m.Key()).t), tBool}
	case "elemHeap": // elemHeap(x): the memory of the element type of slice x
		v := arg(0)
		el := v.ty.Underlying().(*types.Slice).Elem()
		return TV{g.get(e.st, g.keyElem(el)), &ArrT{tInt, &ArrT{tInt, el}}}
	case "mem":
		if len(x.args) == 2 {
			return TV{e.memSlice(arg(0), arg(1)), tBool}
		}
		a := arg(0)
		at, ok := a.ty.(*ArrT)
		if !ok {
			e.fail(x, "mem: %s", a.ty)
		}
		return TV{fmt.Sprintf("(%s %s %s %s %s)", g.memFn(g.sort(at.Elem)), a.t, e.int(x.args[1]), e.int(x.args[2]), e.coerce(x, arg(3), at.Elem).t), tBool}
	case "store":
		a := arg(0)
		at, ok := a.ty.(*ArrT)
		if !ok {
			if st, ok2 := a.ty.(*SetT); ok2 {
				return TV{fmt.Sprintf("(store %s %s %s)", a.t, e.coerce(x, arg(1), st.K).t, e.bool(x.args[2])), a.ty}
			}
			e.fail(x, "store: %s", a.ty)
		}
		return TV{fmt.Sprintf("(store %s %s %s)", a.t, e.coerce(x, arg(1), at.Idx).t, e.coerce(x, arg(2), at.Elem).t), a.ty}
	case "bytes": // the string with the bytes of a slice
		if len(x.args) == 2 { // bytes(elemHeap, slice): in that memory
			return TV{g.bytesStr(sel(arg(0).t, "(sbase "+arg(1).t+")"), arg(1).t), tString}
		}
		v := arg(0)
		el := v.ty.Underlying().(*types.Slice).Elem()
		return TV{g.bytesStr(sel(g.get(e.st, g.keyElem(el)), "(sbase "+v.t+")"), v.t), tString}
	case "emptyset":
		// emptyset(example set)
		v := arg(0)
		return TV{g.emptySet(v.ty.(*SetT).K), v.ty}
	case "fresh":
		v := arg(0)
		return TV{not(g.isOld(g.refOf(v), g.get(e.old, g.keyAlloc()))), tBool}
	case "isold":
		v := arg(0)
		return TV{g.isOld(g.refOf(v), g.get(e.old, g.keyAlloc())), tBool}
	case "allocated":
		v := arg(0)
		return TV{g.isOld(g.refOf(v), g.get(e.st, g.keyAlloc())), tBool}
	case "tag":
		return TV{"(tagof " + arg(0).t + ")", tInt}
	case "iseq": // string comparison by bytes, for triggering
		return TV{"(iseq " + arg(0).t + " " + arg(1).t + ")", tBool}
	case "runestr":
		return TV{"(runestr " + arg(0).t + ")", tString}
	case "ref": // the identity behind an interface value or a pointer
		v := arg(0)
		if g.sort(v.ty) == "Val" {
			g.valref()
			return TV{"(valref " + v.t + ")", tInt}
		}
		return TV{g.refOf(v), tInt}
	case "ite":
		a, b := arg(1), arg(2)
		if a.ty == nil {
			a = TV{g.zero(b.ty), b.ty}
		}
		if b.ty == nil {
			b = TV{g.zero(a.ty), a.ty}
		}
		if g.sort(a.ty) != g.sort(b.ty) {
			e.fail(x, "ite: %s, %s", a.ty, b.ty)
		}
		return TV{ite(e.bool(x.args[0]), a.t, b.t), a.ty}
	case "box":
		v := arg(0)
		return TV{g.box(v.ty, v.t), types.Universe.Lookup("any").Type()}
	case "zero":
		t := g.resolveType(x.typ, e.pkg)
		return TV{g.zero(t), t}
	case "mk":
		t := g.resolveType(x.typ, e.pkg)
		st, ok := t.Underlying().(*types.Struct)
		if !ok || st.NumFields() != len(x.args) {
			if at, ok := t.Underlying().(*types.Array); ok && int(at.Len()) == len(x.args) {
				s := "(mk_" + g.sort(t)
				for i := range x.args {
					s += " " + e.coerce(x, arg(i), at.Elem()).t
				}
				return TV{s + ")", t}
			}
			e.fail(x, "mk: wrong number of fields for %s", t)
		}
		s := "(mk_" + g.sort(t)
		for i := range x.args {
			s += " " + e.coerce(x, arg(i), st.Field(i).Type()).t
		}
		return TV{s + ")", t}
	case "det", "detat": // det(F, args...): the value that the deterministic function F returns; detat(F, epoch, args...)
		f := x.args[0]
		key := f.name
		if f.op == "field" && f.args[0].op == "field" {
			key = f.args[0].args[0].name + ".(" + f.args[0].name + ")." + f.name
		} else if f.op == "field" {
			key = f.args[0].name + "." + f.name
			if o := g.typesPkg(e.pkg.name); o != nil && o.Scope().Lookup(f.args[0].name) != nil {
				key = e.pkg.name + ".(" + f.args[0].name + ")." + f.name
			}
		} else if !strings.Contains(key, ".") {
			key = e.pkg.name + "." + key
		}
		var args []TV
		ep, first := "", 1
		if x.name == "detat" {
			ep, first = e.int(x.args[1]), 2
		}
		for i := first; i < len(x.args); i++ {
			args = append(args, arg(i))
		}
		return e.detCall(x, key, args, ep)
	}
	if p := g.sp.pures[x.name]; p != nil {
		if len(p.params) != len(x.args) {
			e.fail(x, "%s: wrong number of arguments", x.name)
		}
		n := g.pureFn(p)
		s := "(" + n
		for i, b := range p.params {
			s += " " + e.coerce(x, arg(i), g.resolveType(b.typ, p.pkg)).t
		}
		if len(p.params) == 0 {
			return TV{n, g.resolveType(p.res, p.pkg)}
		}
		return TV{s + ")", g.resolveType(p.res, p.pkg)}
	}
	if m := g.sp.macros[x.name]; m != nil {
		if len(m.params) != len(x.args) {
			e.fail(x, "%s: wrong number of arguments", x.name)
		}
		ne := *e
		ne.names = map[string]TV{}
		ne.pkg = m.pkg
		ne.depth++
		for i, p := range m.params {
			ne.names[p] = arg(i)
		}
		return ne.expr(m.body)
	}
	e.fail(x, "unknown function %s", x.name)
	return TV{}
}

func (g *Gen) valref() {
	g.decl("valref", "(declare-fun valref (Val) Int)")
}

// isOld: the reference existed when the allocation counter was a.
func (g *Gen) isOld(ref, a string) string {
	return fmt.Sprintf("(oldref %s %s)", ref, a)
}

func (g *Gen) refOf(v TV) string {
	switch g.sort(v.ty) {
	case "Slice":
		return "(sbase " + v.t + ")"
	case "Val":
		g.valref()
		return "(valref " + v.t + ")"
	}
	return v.t
}

func (g *Gen) mapLen(st *State, m *types.Map, ref string) string {
	n := "maplen_" + sanitize(g.sort(m.Key()))
	g.decl(n, fmt.Sprintf("(declare-fun %[1]s ((Array %[2]s Bool)) Int)\n(assert (forall ((d (Array %[2]s Bool))) (! (<= 0 (%[1]s d)) :pattern ((%[1]s d)))))", n, g.sort(m.Key())))
	return "(" + n + " " + sel(g.get(st, g.keyDom(m)), ref) + ")"
}

func (g *Gen) keyEpoch() string { return g.regKey("P:", "Int", 'P', tInt, nil) }
