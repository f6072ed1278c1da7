package main

// The contract language: lexer, parser and abstract syntax.
//
// A contract file holds declarations:
//
//	package merge                         names below are resolved in this package of the module under verification
//	import cascadia ".../internal/cascadia"
//	ghost strings.Builder.content string  ghost field of an external type
//	pure f(x string, i int) int           uninterpreted specification function
//	define g(a, b) = expr                 macro, expanded where it is used
//	axiom name: expr                      assumed fact about pure functions (listed in the evidence)
//	lemma name: expr [by induction n]     proved from the axioms before it, then used as a fact
//	func F(params) (results) ...          contract of a function of /repo
//	extern pkg.F(params) (results) ...    assumed contract of a function outside /repo
//	template F (binders): expr            loop invariant candidates for F
//	measure F: expr                       loop ranking candidates for F

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

type Tok struct {
	kind string // id, int, str, char, op, eof
	s    string
	line int
}

type Lexer struct {
	toks []Tok
	pos  int
	file string
}

var ops = []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", "(", ")", "[", "]", "{", "}", ",", ".", "+", "-", "*", "/", "%", "<", ">", "!", ":", "=", ";", "?", "&"}

func lex(file, src string) (*Lexer, error) {
	lx := &Lexer{file: file}
	line := 1
	i := 0
	for i < len(src) {
		c := src[i]
		switch {
		case c == '\n':
			line++
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '#' || (c == '/' && i+1 < len(src) && src[i+1] == '/'):
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case c == '"':
			j := i + 1
			var b strings.Builder
			for j < len(src) && src[j] != '"' {
				if src[j] == '\\' && j+1 < len(src) {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					case 'f':
						b.WriteByte('\f')
					default:
						b.WriteByte(src[j])
					}
				} else {
					b.WriteByte(src[j])
				}
				j++
			}
			lx.toks = append(lx.toks, Tok{"str", b.String(), line})
			i = j + 1
		case c == '\'':
			j := i + 1
			v := 0
			if src[j] == '\\' {
				j++
				switch src[j] {
				case 'n':
					v = '\n'
				case 't':
					v = '\t'
				case 'r':
					v = '\r'
				case 'f':
					v = '\f'
				default:
					v = int(src[j])
				}
			} else {
				v = int(src[j])
			}
			j++
			if src[j] != '\'' {
				return nil, fmt.Errorf("%s:%d: bad char literal", file, line)
			}
			lx.toks = append(lx.toks, Tok{"int", fmt.Sprint(v), line})
			i = j + 1
		case c >= '0' && c <= '9':
			j := i
			for j < len(src) && src[j] >= '0' && src[j] <= '9' {
				j++
			}
			lx.toks = append(lx.toks, Tok{"int", src[i:j], line})
			i = j
		case c == '_' || c == '$' || unicode.IsLetter(rune(c)):
			j := i
			for j < len(src) && (src[j] == '_' || src[j] == '$' || src[j] == '@' || unicode.IsLetter(rune(src[j])) || unicode.IsDigit(rune(src[j]))) {
				j++
			}
			lx.toks = append(lx.toks, Tok{"id", src[i:j], line})
			i = j
		default:
			found := false
			for _, o := range ops {
				if strings.HasPrefix(src[i:], o) {
					lx.toks = append(lx.toks, Tok{"op", o, line})
					i += len(o)
					found = true
					break
				}
			}
			if !found {
				return nil, fmt.Errorf("%s:%d: unexpected %q", file, line, c)
			}
		}
	}
	lx.toks = append(lx.toks, Tok{"eof", "", line})
	return lx, nil
}

func (l *Lexer) peek() Tok  { return l.toks[l.pos] }
func (l *Lexer) peek2() Tok { return l.toks[min(l.pos+1, len(l.toks)-1)] }
func (l *Lexer) next() Tok {
	t := l.toks[l.pos]
	if l.pos < len(l.toks)-1 {
		l.pos++
	}
	return t
}
func (l *Lexer) is(s string) bool {
	t := l.peek()
	return (t.kind == "op" || t.kind == "id") && t.s == s
}
func (l *Lexer) accept(s string) bool {
	if l.is(s) {
		l.next()
		return true
	}
	return false
}

type specErr struct{ msg string }

func (l *Lexer) fail(f string, a ...any) {
	panic(specErr{fmt.Sprintf("%s:%d: %s", l.file, l.peek().line, fmt.Sprintf(f, a...))})
}
func (l *Lexer) expect(s string) {
	if !l.accept(s) {
		l.fail("expected %q, found %q", s, l.peek().s)
	}
}
func (l *Lexer) ident() string {
	t := l.next()
	if t.kind != "id" {
		l.pos--
		l.fail("expected identifier, found %q", t.s)
	}
	return t.s
}

// TypeX is a type expression.
type TypeX struct {
	kind string // name, ptr, slice, map, set, arr, heap
	pkg  string
	name string
	a, b *TypeX
}

func (l *Lexer) typ() *TypeX {
	switch {
	case l.accept("*"):
		return &TypeX{kind: "ptr", a: l.typ()}
	case l.accept("["):
		l.expect("]")
		return &TypeX{kind: "slice", a: l.typ()}
	}
	n := l.ident()
	switch n {
	case "map":
		l.expect("[")
		k := l.typ()
		l.expect("]")
		return &TypeX{kind: "map", a: k, b: l.typ()}
	case "set", "arr":
		l.expect("[")
		k := l.typ()
		if n == "arr" && l.accept(",") {
			v := l.typ()
			l.expect("]")
			return &TypeX{kind: "mmap", a: k, b: v}
		}
		l.expect("]")
		return &TypeX{kind: n, a: k}
	}
	if l.accept(".") {
		return &TypeX{kind: "name", pkg: n, name: l.ident()}
	}
	return &TypeX{kind: "name", name: n}
}

// Expr is a specification expression.
type Expr struct {
	op   string // lit-int lit-str id call field index slice un bin forall exists is as
	name string
	args []*Expr
	vars []Binder
	typ  *TypeX
	trig [][]*Expr
	line int
	file string
}

type Binder struct {
	name string
	typ  *TypeX
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (l *Lexer) expr() *Expr { return l.binary(1) }

func (l *Lexer) binary(p int) *Expr {
	lhs := l.unary()
	for {
		t := l.peek()
		q, ok := prec[t.s]
		if !ok || t.kind == "str" || q < p {
			return lhs
		}
		l.next()
		var rhs *Expr
		if t.s == "==>" {
			rhs = l.binary(q)
		} else {
			rhs = l.binary(q + 1)
		}
		lhs = &Expr{op: "bin", name: t.s, args: []*Expr{lhs, rhs}, line: t.line, file: l.file}
	}
}

func (l *Lexer) unary() *Expr {
	t := l.peek()
	if t.kind == "op" && (t.s == "!" || t.s == "-") {
		l.next()
		return &Expr{op: "un", name: t.s, args: []*Expr{l.unary()}, line: t.line, file: l.file}
	}
	return l.postfix(l.primary())
}

func (l *Lexer) postfix(e *Expr) *Expr {
	for {
		t := l.peek()
		switch {
		case l.accept("."):
			e = &Expr{op: "field", name: l.ident(), args: []*Expr{e}, line: t.line, file: l.file}
		case l.accept("["):
			var lo, hi *Expr
			if !l.is(":") {
				lo = l.expr()
			}
			if l.accept(":") {
				if !l.is("]") {
					hi = l.expr()
				}
				l.expect("]")
				e = &Expr{op: "slice", args: []*Expr{e, lo, hi}, line: t.line, file: l.file}
			} else {
				l.expect("]")
				e = &Expr{op: "index", args: []*Expr{e, lo}, line: t.line, file: l.file}
			}
		case l.is("(") && (e.op == "id" || e.op == "field"):
			l.next()
			c := &Expr{op: "call", line: t.line, file: l.file}
			if e.op == "id" {
				c.name = e.name
			} else {
				c.name = e.args[0].name + "." + e.name
			}
			switch c.name {
			case "is", "as":
				c.op = c.name
				c.args = []*Expr{l.expr()}
				l.expect(",")
				c.typ = l.typ()
				l.expect(")")
			case "mk", "zero":
				c.typ = l.typ()
				for l.accept(",") {
					c.args = append(c.args, l.expr())
				}
				l.expect(")")
			default:
				for !l.is(")") {
					c.args = append(c.args, l.expr())
					if !l.accept(",") {
						break
					}
				}
				l.expect(")")
			}
			e = c
		default:
			return e
		}
	}
}

func (l *Lexer) primary() *Expr {
	t := l.next()
	mk := func(op, name string) *Expr { return &Expr{op: op, name: name, line: t.line, file: l.file} }
	switch {
	case t.kind == "int":
		return mk("lit-int", t.s)
	case t.kind == "str":
		return mk("lit-str", t.s)
	case t.kind == "op" && t.s == "(":
		e := l.expr()
		l.expect(")")
		return e
	case t.kind == "id" && (t.s == "forall" || t.s == "exists"):
		e := mk(t.s, "")
		for {
			n := l.ident()
			e.vars = append(e.vars, Binder{n, l.typ()})
			if !l.accept(",") {
				break
			}
		}
		for l.accept("{") {
			var tr []*Expr
			for {
				tr = append(tr, l.expr())
				if !l.accept(",") {
					break
				}
			}
			l.expect("}")
			e.trig = append(e.trig, tr)
		}
		l.expect("::")
		e.args = []*Expr{l.expr()}
		return e
	case t.kind == "id":
		return mk("id", t.s)
	}
	l.pos--
	l.fail("unexpected %q in expression", t.s)
	return nil
}

// Clause is a named formula of a contract.
type Clause struct {
	name string
	e    *Expr
}

// Contract of a function.
type Contract struct {
	prefix     bool
	sharedLocs []*Expr
	shared     []Clause
	key        string // e.g. merge.(Merger).Merge, strings.Fields
	pkg        *SpecPkg
	extern     bool
	trusted    bool
	params     []string // names, receiver first
	results    []string
	requires   []Clause
	ensures    []Clause
	assigns    []*Expr
	decr       []*Expr
	allocs     bool // extern: may allocate its result
	det        bool // the result is a function of the arguments and the memory they reach
	assumes    []Clause
	defs       []Clause // what a call establishes by definition, about an uninterpreted function
	pure       string   // result is this uninterpreted function of the arguments (doc only)
	line       int
	file       string
}

type Template struct {
	fn      string
	name    string
	binders []TBinder
	e       *Expr
	pkg     *SpecPkg
}

// nameOf gives a name that depends on nothing but the template itself, so that hints stay valid when others are added.
func (t *Template) nameOf(prefix string) string {
	h := fnv.New32a()
	var typ func(x *TypeX)
	typ = func(x *TypeX) {
		if x != nil {
			fmt.Fprintf(h, "<%s %s %s", x.kind, x.pkg, x.name)
			typ(x.a)
			typ(x.b)
			fmt.Fprint(h, ">")
		}
	}
	var expr func(e *Expr)
	expr = func(e *Expr) {
		fmt.Fprintf(h, "(%s %s", e.op, e.name)
		typ(e.typ)
		for _, a := range e.args {
			expr(a)
		}
		for _, v := range e.vars {
			fmt.Fprintf(h, "[%s", v.name)
			typ(v.typ)
		}
		for _, g := range e.trig {
			fmt.Fprint(h, "{")
			for _, a := range g {
				expr(a)
			}
		}
		fmt.Fprint(h, ")")
	}
	fmt.Fprint(h, t.fn)
	for _, b := range t.binders {
		fmt.Fprint(h, b.kind, b.names)
		typ(b.typ)
	}
	expr(t.e)
	return fmt.Sprintf("%s%08x", prefix, h.Sum32())
}

// TBinder binds names of a loop template.
type TBinder struct {
	kind  string // var, param, over, visited
	names []string
	typ   *TypeX
}

type PureDecl struct {
	name   string
	params []Binder
	res    *TypeX
	pkg    *SpecPkg
	def    *Expr // heapfn: the value in the memory of the epoch given as first argument
}

type Macro struct {
	name   string
	params []string
	body   *Expr
	pkg    *SpecPkg
}

type AxiomDecl struct {
	local bool // only for later lemmas, not for functions
	name  string
	e     *Expr
	lemma bool
	uses  *Expr // the proof is by induction on this integer
	pkg   *SpecPkg
	raw   string
	hints []*Expr // terms that the proof by induction may use
}

type GhostDecl struct {
	typ   string // e.g. strings.Builder
	field string
	t     *TypeX
	pkg   *SpecPkg
}

type SpecPkg struct {
	name    string
	imports map[string]string
	file    string
}

// InvDecl is an invariant of all values of a type (boxed in an interface), or of all slice elements of a type.
type InvDecl struct {
	v   string
	e   *Expr
	pkg *SpecPkg

	next *InvDecl // more of the same type
}

// GlobalInv is an invariant of package variables, established by the package initialiser.
type GlobalInv struct {
	vars []string
	e    *Expr
	pkg  *SpecPkg
}

// PropDecl lists the functions that a property rests on.
type PropDecl struct {
	id         string
	concurrent bool     // the roots run at the same time as others of their kind
	total      []string // termination counts for these and for what they call
	roots      []string
}

type Specs struct {
	typeinv map[string]*InvDecl
	treeinv map[string]*InvDecl // assumed of receivers
	globals []*GlobalInv
	eleminv map[string]*InvDecl
	props   map[string]*PropDecl

	contracts map[string]*Contract
	templates []*Template
	measures  []*Template
	pures     map[string]*PureDecl
	pureOrder []string
	macros    map[string]*Macro
	axioms    []*AxiomDecl
	ghosts    map[string]*GhostDecl
	transp    map[string]bool
	noted     []string
}

func loadSpecs(dir string) (sp *Specs, err error) {
	sp = &Specs{contracts: map[string]*Contract{}, pures: map[string]*PureDecl{}, macros: map[string]*Macro{}, ghosts: map[string]*GhostDecl{}, transp: map[string]bool{}, typeinv: map[string]*InvDecl{}, treeinv: map[string]*InvDecl{}, eleminv: map[string]*InvDecl{}, props: map[string]*PropDecl{}}
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", se.msg)
				return
			}
			panic(r)
		}
	}()
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	if len(files) == 0 {
		return nil, fmt.Errorf("no contract files in %s", dir)
	}
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		l, e := lex(f, string(b))
		if e != nil {
			return nil, e
		}
		sp.parseFile(l, f)
	}
	return sp, nil
}

func (l *Lexer) names() []string {
	// ( [name [type]] , ... ): types are documentation only, the real signature counts
	l.expect("(")
	var out []string
	for !l.is(")") {
		out = append(out, l.ident())
		for !l.is(",") && !l.is(")") {
			if l.is("(") {
				l.fail("nested parenthesis in parameter type")
			}
			l.next()
		}
		if !l.accept(",") {
			break
		}
	}
	l.expect(")")
	return out
}

func (sp *Specs) parseFile(l *Lexer, file string) {
	pk := &SpecPkg{imports: map[string]string{}, file: file}
	for l.peek().kind != "eof" {
		kw := l.ident()
		switch kw {
		case "package":
			pk = &SpecPkg{name: l.ident(), imports: pk.imports, file: file}
		case "import":
			n := l.ident()
			pk.imports[n] = l.next().s
		case "transparent":
			t := l.typ()
			sp.transp[t.pkg+"."+t.name] = true
		case "ghost":
			a := l.ident()
			l.expect(".")
			b := l.ident()
			l.expect(".")
			f := l.ident()
			sp.ghosts[a+"."+b+"."+f] = &GhostDecl{a + "." + b, f, l.typ(), pk}
		case "pure", "heapfn":
			d := &PureDecl{name: l.ident(), pkg: pk}
			l.expect("(")
			for !l.is(")") {
				n := l.ident()
				d.params = append(d.params, Binder{n, l.typ()})
				if !l.accept(",") {
					break
				}
			}
			l.expect(")")
			d.res = l.typ()
			if l.accept("=") {
				d.def = l.expr()
			}
			if (d.def != nil) != (kw == "heapfn") {
				l.fail("heapfn has a definition, pure has none")
			}
			if sp.pures[d.name] != nil {
				l.fail("duplicate pure %s", d.name)
			}
			sp.pures[d.name] = d
			sp.pureOrder = append(sp.pureOrder, d.name)
		case "define":
			m := &Macro{name: l.ident(), pkg: pk}
			m.params = l.names()
			l.expect("=")
			m.body = l.expr()
			if sp.macros[m.name] != nil {
				l.fail("duplicate define %s", m.name)
			}
			sp.macros[m.name] = m
		case "axiom", "lemma":
			a := &AxiomDecl{name: l.ident(), lemma: kw == "lemma", pkg: pk}
			a.local = l.accept("local")
			if l.accept("uses") {
				a.uses = l.expr()
			}
			if l.accept("hint") {
				a.hints = append(a.hints, l.expr())
				for l.accept(",") {
					a.hints = append(a.hints, l.expr())
				}
			}
			l.expect(":")
			a.e = l.expr()
			sp.axioms = append(sp.axioms, a)
		case "globalinv":
			gi := &GlobalInv{pkg: pk}
			for {
				gi.vars = append(gi.vars, l.ident())
				if !l.accept(",") {
					break
				}
			}
			l.expect(":")
			gi.e = l.expr()
			sp.globals = append(sp.globals, gi)
			k := pk.name + ".init"
			c := sp.contracts[k]
			if c == nil {
				c = &Contract{pkg: pk, key: k, file: file, line: l.peek().line}
				sp.contracts[k] = c
			}
			c.ensures = append(c.ensures, Clause{"package variables", gi.e})
		case "typeinv", "eleminv", "treeinv":
			t := l.typ()
			l.expect("(")
			d := &InvDecl{v: l.ident(), pkg: pk}
			l.expect(")")
			l.expect(":")
			d.e = l.expr()
			pn := t.pkg
			if pn == "" {
				pn = pk.name
			}
			if kw == "typeinv" {
				d.next = sp.typeinv[pn+"."+t.name]
				sp.typeinv[pn+"."+t.name] = d
			} else if kw == "treeinv" {
				d.next = sp.treeinv[pn+"."+t.name]
				sp.treeinv[pn+"."+t.name] = d
			} else {
				d.next = sp.eleminv[pn+"."+t.name]
				sp.eleminv[pn+"."+t.name] = d
			}
		case "property":
			id := l.ident()
			d := sp.props[id]
			if d == nil {
				d = &PropDecl{id: id}
				sp.props[id] = d
			}
			into := &d.roots
			if l.accept("total") {
				into = &d.total
			}
			if l.accept("concurrent") {
				d.concurrent = true
			}
			l.expect(":")
			for {
				*into = append(*into, l.funcKey(pk))
				if !l.accept(",") {
					break
				}
			}
		case "note":
			sp.noted = append(sp.noted, l.next().s)
		case "template", "measure":
			t := &Template{pkg: pk}
			t.fn = l.funcKey(pk)
			if l.accept("(") {
				for !l.is(")") {
					var b TBinder
					b.names = append(b.names, l.ident())
					for l.accept("/") {
						b.names = append(b.names, l.ident())
					}
					switch {
					case l.accept("over"):
						b.kind = "over"
					case l.accept("visited"):
						b.kind = "visited"
					case l.accept("phi"):
						b.kind = "phi"
					case l.accept("prior"):
						b.kind = "prior"
					case l.accept("param"):
						b.kind = "param"
					default:
						b.kind = "var"
					}
					b.typ = l.typ()
					t.binders = append(t.binders, b)
					if !l.accept(",") {
						break
					}
				}
				l.expect(")")
			}
			l.expect(":")
			t.e = l.expr()
			if kw == "template" {
				// each conjunct is a candidate of its own
				var split func(e *Expr)
				split = func(e *Expr) {
					if e.op == "bin" && e.name == "&&" {
						split(e.args[0])
						split(e.args[1])
						return
					}
					u := *t
					u.e = e
					u.name = u.nameOf("t")
					sp.templates = append(sp.templates, &u)
				}
				split(t.e)
			} else {
				t.name = t.nameOf("m")
				sp.measures = append(sp.measures, t)
			}
		case "func", "extern":
			c := &Contract{pkg: pk, extern: kw == "extern", line: l.peek().line, file: file}
			c.key = l.funcKey(pk)
			if c.extern {
				c.key = strings.TrimPrefix(c.key, pk.name+"!")
			}
			if l.is("recv") {
				l.next()
				c.params = append(c.params, l.ident())
			}
			c.params = append(c.params, l.names()...)
			if l.is("(") {
				c.results = l.names()
			}
			for {
				name := ""
				k := l.peek()
				if k.kind != "id" {
					break
				}
				switch k.s {
				case "requires", "ensures":
					l.next()
					if l.accept("[") {
						var parts []string
						for !l.is("]") {
							parts = append(parts, l.next().s)
						}
						name = strings.Join(parts, " ")
						l.expect("]")
					}
					cl := Clause{name, l.expr()}
					if k.s == "requires" {
						c.requires = append(c.requires, cl)
					} else {
						c.ensures = append(c.ensures, cl)
					}
					continue
				case "assigns":
					l.next()
					for {
						c.assigns = append(c.assigns, l.expr())
						if !l.accept(",") {
							break
						}
					}
					continue
				case "decreases":
					l.next()
					for {
						c.decr = append(c.decr, l.expr())
						if !l.accept(",") {
							break
						}
					}
					continue
				case "trusted":
					l.next()
					c.trusted = true
					continue
				case "allocates":
					l.next()
					c.allocs = true
					continue
				case "deterministic":
					l.next()
					c.det = true
					continue
				case "defines":
					l.next()
					c.defs = append(c.defs, Clause{"", l.expr()})
					continue
				case "shared": // what other goroutines may change at any time, and what they keep
					l.next()
					for {
						c.sharedLocs = append(c.sharedLocs, l.expr())
						if !l.accept(",") {
							break
						}
					}
					l.expect(":")
					c.shared = append(c.shared, Clause{"shared", l.expr()})
					continue
				case "prefixes": // the proof speaks of the slice before an append, too
					l.next()
					c.prefix = true
					continue
				case "assume":
					l.next()
					c.assumes = append(c.assumes, Clause{"", l.expr()})
					continue
				}
				break
			}
			if sp.contracts[c.key] != nil {
				l.fail("duplicate contract for %s", c.key)
			}
			sp.contracts[c.key] = c
		default:
			l.fail("unexpected %q", kw)
		}
	}
}

// funcKey reads the name of a function: F, (T).M or pkg.F, pkg.(T).M for externals.
// The result is pkg.F or pkg.(T).M.
func (l *Lexer) funcKey(pk *SpecPkg) string {
	recv := func() string {
		l.expect("(")
		l.accept("*")
		n := l.ident()
		l.expect(")")
		l.expect(".")
		return "(" + n + ")." + l.ident()
	}
	if l.is("(") {
		return pk.name + "." + recv()
	}
	n := l.ident()
	if l.accept(".") {
		if l.is("(") {
			return n + "." + recv()
		}
		return n + "." + l.ident()
	}
	return pk.name + "." + n
}
