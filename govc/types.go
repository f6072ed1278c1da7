package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Specification-only types.
type SetT struct{ K types.Type }         // Array K Bool
type ArrT struct{ Idx, Elem types.Type } // Array Idx Elem (Idx nil: Int)
type AnyT struct{}

func (t *SetT) Underlying() types.Type { return t }
func (t *SetT) String() string         { return "set[" + t.K.String() + "]" }
func (t *ArrT) Underlying() types.Type { return t }
func (t *ArrT) String() string         { return "arr[" + t.Idx.String() + "," + t.Elem.String() + "]" }

var (
	tInt    = types.Typ[types.Int]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
	tByte   = types.Typ[types.Uint8]
)

// Ctx is shared by all functions of a run: types, program, contracts.
type Ctx struct {
	deadline   time.Time
	sp         *Specs
	prog       *ssa.Program
	repo       string
	pkgs       map[string]*ssa.Package // by package name
	pkgPath    map[string]bool         // packages under verification
	byKey      map[string]*ssa.Function
	ifaceByKey map[string]*ifaceM
	modCache   map[*ssa.Function]map[string]*KeyInfo
	loopCache  map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	localCache map[ssa.Value]bool
	cgCache    map[string][]string
	prop       string // property being checked: tags of clauses
}

type ifaceM struct {
	t types.Type
	m string
}

// KeyInfo describes a state variable.
type KeyInfo struct {
	key  string
	sort string
	kind byte       // H field, C cell, E elems, D map domain, V map values, G ghost, L local, I visited, A alloc, X global
	ty   types.Type // H, C: content type; E: element type; D, V: map type; L: type
	styp types.Type // H: struct type
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' || r == '$' || r == '@' || r == '!':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("ptr!")
		case r == '[' || r == ']':
			b.WriteByte('_')
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

func qual(p *types.Package) string { return p.Name() }

func typeName(t types.Type) string {
	return sanitize(types.TypeString(t, qual))
}

func (c *Ctx) transparent(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok := t.(*types.Alias); ok {
			return c.transparent(types.Unalias(a))
		}
		return true
	}
	p := n.Obj().Pkg()
	if p == nil {
		return true
	}
	return c.pkgPath[p.Path()] || c.sp.transp[p.Name()+"."+n.Obj().Name()]
}

// Gen holds the declarations and facts of one verification run (one function).
type Gen struct {
	*Ctx
	decls     []string
	seen      map[string]bool
	facts     []string
	trees     sync.Map          // facts as trees
	factAt    []*ssa.BasicBlock // block (of the outermost function) that gives the fact; nil: always relevant
	at        *ssa.BasicBlock
	noElemInv bool // the value being read is in a slice that is filled later
	ancMu     sync.Mutex
	ancestors map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	oblig     []*Oblig
	tags      map[string]int
	tagTyp    []types.Type
	n         int
	keys      map[string]*KeyInfo
	lits      map[string]string
	cands     []*Cand
	fn        *ssa.Function
	con       *Contract
	conKey    string
	name0     string
	total     bool     // prove termination
	conc      []assign // locations that other goroutines change, too

	params       []TV // the parameters of the function
	entry        *State
	entryEnv     *Env
	assigned     []assign
	dry          int
	recs         []*Recorder
	exts         map[string]bool // external contracts used
	calls        map[string]bool // contracts used
	inlined      map[string]bool
	inlineOnly   map[string]bool
	unsup        []string
	inst         int
	loops        []*LoopInfo
	loopStack    []*loopShape
	nLoop        int
	nInl         int
	nPerm        int
	trivial      int
	unrollN      []int
	freshRefs    map[string]bool
	knownNonNil  map[string]bool
	cloLocals    map[string]*Clo
	ifaces       map[string]types.Type
	recCache     map[string]bool
	detUsed      map[string]bool
	treeUsed     map[string]bool
	specProblems map[string]bool
	hintMode     bool
	hints        map[string]bool
	axioms       []axiomT
	memSorts     map[string]bool
	exitReach    []string
}

type axiomT struct {
	name  string
	term  string
	lemma bool
}

type Oblig struct {
	id     int
	label  string
	kind   string
	goal   string
	nfacts int
	at     *ssa.BasicBlock
	cand   *Cand
	entry  bool // of a candidate: it holds when the loop is reached
	fn     string
	pos    string
	tags   string
	status string // unsat (proved), sat, unknown, dropped
	solver string
	secs   float64
	out    string
	core   map[string]bool // the candidates it was proved from
}

type Cand struct {
	id   int
	name string // stable description
	flag string
	on   bool
	loop *LoopInfo
}

func newGen(c *Ctx) *Gen {
	return &Gen{Ctx: c, seen: map[string]bool{}, tags: map[string]int{}, keys: map[string]*KeyInfo{}, lits: map[string]string{}, exts: map[string]bool{}, calls: map[string]bool{}, memSorts: map[string]bool{}, inlined: map[string]bool{}, inlineOnly: map[string]bool{}, freshRefs: map[string]bool{}, knownNonNil: map[string]bool{}, cloLocals: map[string]*Clo{}, ifaces: map[string]types.Type{}, recCache: map[string]bool{}, detUsed: map[string]bool{}, treeUsed: map[string]bool{}, specProblems: map[string]bool{}}
}

// expired: the time given to the run is used up.
func (c *Ctx) expired() bool {
	return !c.deadline.IsZero() && time.Now().After(c.deadline)
}

func (g *Gen) decl(key, s string) {
	if g.seen[key] {
		return
	}
	g.seen[key] = true
	g.decls = append(g.decls, s)
}

func (g *Gen) sort(t types.Type) string {
	switch u := t.(type) {
	case *SetT:
		return "(Array " + g.sort(u.K) + " Bool)"
	case *ArrT:
		return "(Array " + g.sort(u.Idx) + " " + g.sort(u.Elem) + ")"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsString != 0:
			return "Str"
		}
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Val"
	case *types.Struct:
		name := "S_" + typeName(t)
		if !g.transparent(t) {
			g.decl(name, "(declare-sort "+name+" 0)")
			return name
		}
		if !g.seen[name] {
			var fs []string
			for i := 0; i < u.NumFields(); i++ {
				fs = append(fs, fmt.Sprintf("(%s %s)", fieldSel(t, i), g.sort(u.Field(i).Type())))
			}
			g.decl(name, fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s %s))))", name, name, strings.Join(fs, " ")))
		}
		return name
	case *types.Array:
		es := g.sort(u.Elem())
		name := fmt.Sprintf("A%d_%s", u.Len(), sanitize(es))
		if u.Len() > 8 {
			g.decl(name, "(declare-sort "+name+" 0)")
			return name
		}
		if !g.seen[name] {
			var fs []string
			for i := int64(0); i < u.Len(); i++ {
				fs = append(fs, fmt.Sprintf("(%s.%d %s)", name, i, es))
			}
			g.decl(name, fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s %s))))", name, name, strings.Join(fs, " ")))
		}
		return name
	}
	return "Int" // pointers, maps, functions, channels
}

func fieldSel(t types.Type, i int) string {
	u := t.Underlying().(*types.Struct)
	return "S_" + typeName(t) + "." + sanitize(u.Field(i).Name())
}

func (g *Gen) zero(t types.Type) string {
	switch s := g.sort(t); s {
	case "Bool":
		return "false"
	case "Str":
		return g.lit("")
	case "Int":
		return "0"
	case "Slice":
		return "nilslice"
	case "Val":
		return "nilval"
	default:
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if g.transparent(t) {
				if u.NumFields() == 0 {
					return "mk_" + s
				}
				var fs []string
				for i := 0; i < u.NumFields(); i++ {
					fs = append(fs, g.zero(u.Field(i).Type()))
				}
				return "(mk_" + s + " " + strings.Join(fs, " ") + ")"
			}
		case *types.Array:
			if u.Len() == 0 {
				return "mk_" + s
			}
			if u.Len() <= 8 {
				z := g.zero(u.Elem())
				return "(mk_" + s + strings.Repeat(" "+z, int(u.Len())) + ")"
			}
		}
		z := "zero_" + sanitize(s)
		g.decl(z, fmt.Sprintf("(declare-const %s %s)", z, s))
		return z
	}
}

// lit returns the constant of a string literal.
func (g *Gen) lit(s string) string {
	if c, ok := g.lits[s]; ok {
		return c
	}
	c := fmt.Sprintf("lit%d", len(g.lits))
	if s == "" {
		c = "emptystr"
		g.lits[s] = c
		return c
	}
	g.lits[s] = c
	show := strings.Map(func(r rune) rune {
		if r < 32 || r > 126 || r == '"' || r == '\\' || r == '|' {
			return '?'
		}
		return r
	}, s)
	d := fmt.Sprintf("(declare-const %s Str) ; %s\n(assert (= (slen %s) %d))", c, show, c, len(s))
	if len(s) <= 40 {
		for i := 0; i < len(s); i++ {
			d += fmt.Sprintf("\n(assert (= (sat %s %d) %d))", c, i, s[i])
		}
		// a string with the same bytes is the literal
		var eq []string
		for i := 0; i < len(s); i++ {
			eq = append(eq, fmt.Sprintf("(= (sat s %d) %d)", i, s[i]))
		}
		d += fmt.Sprintf("\n(assert (forall ((s Str)) (! (=> (and (= (slen s) %d) %s) (= s %s)) :pattern ((iseq s %s)))))", len(s), strings.Join(eq, " "), c, c)
	}
	for o, oc := range g.lits {
		if o != s && (len(o) > 40 || len(s) > 40) && len(o) == len(s) {
			d += fmt.Sprintf("\n(assert (not (= %s %s)))", c, oc)
		}
	}
	g.decl(c, d)
	return c
}

// tag is the number of a dynamic type.
func (g *Gen) tag(t types.Type) int {
	k := types.TypeString(t, nil)
	if n, ok := g.tags[k]; ok {
		return n
	}
	n := len(g.tags) + 1
	g.tags[k] = n
	g.tagTyp = append(g.tagTyp, t)
	return n
}

func (g *Gen) boxFn(t types.Type) (box, unbox string) {
	n := typeName(t)
	box, unbox = "box_"+n, "unbox_"+n
	if !g.seen[box] {
		s := g.sort(t)
		tag := g.tag(t)
		if !hasRef(g.Ctx, t) {
			defer g.decl("va_"+box, fmt.Sprintf("(assert (forall ((x %s)) (! (= (valalloc (%s x)) 0) :pattern ((%s x)))))", s, box, box))
		} else if w := g.wf(t, "("+unbox+" v)", "(+ 1 (valalloc v))"); len(w) > 0 {
			defer g.decl("va_"+box, fmt.Sprintf("(assert (forall ((v Val)) (! (=> (= (tagof v) %d) %s) :pattern ((%s v)))))", tag, and(w...), unbox))
		}
		g.decl(box, fmt.Sprintf(`(declare-fun %[1]s (%[3]s) Val)
(declare-fun %[2]s (Val) %[3]s)
(assert (forall ((x %[3]s)) (! (and (= (%[2]s (%[1]s x)) x) (= (tagof (%[1]s x)) %[4]d)) :pattern ((%[1]s x)))))
(assert (forall ((v Val)) (! (=> (= (tagof v) %[4]d) (= (%[1]s (%[2]s v)) v)) :pattern ((%[2]s v)))))`, box, unbox, s, tag))
	}
	return
}

func (g *Gen) box(t types.Type, term string) string {
	if types.IsInterface(t) {
		return term
	}
	b, _ := g.boxFn(t)
	return "(" + b + " " + term + ")"
}

// mem declares the membership predicate of a sequence sort.
func (g *Gen) memFn(elem string) string {
	n := "mem_" + sanitize(elem)
	if g.seen[n] {
		return n
	}
	g.memSorts[elem] = true
	g.decl(n, fmt.Sprintf(`(declare-fun %[1]s ((Array Int %[2]s) Int Int %[2]s) Bool)
(declare-fun %[1]sL ((Array Int %[2]s) Int Int %[2]s) Bool)
(declare-fun %[1]sI ((Array Int %[2]s) Int Int %[2]s) Int)
(assert (forall ((a (Array Int %[2]s)) (lo Int) (hi Int) (x %[2]s)) (! (= (%[1]s a lo hi x) (%[1]sL a lo hi x)) :pattern ((%[1]s a lo hi x)))))
(assert (forall ((a (Array Int %[2]s)) (lo Int) (hi Int) (x %[2]s)) (! (=> (%[1]sL a lo hi x) (and (<= lo (%[1]sI a lo hi x)) (< (%[1]sI a lo hi x) hi) (= (select a (%[1]sI a lo hi x)) x))) :pattern ((%[1]sL a lo hi x)))))
(assert (forall ((a (Array Int %[2]s)) (lo Int) (hi Int) (x %[2]s) (j Int)) (! (=> (and (<= lo j) (< j hi) (= (select a j) x)) (%[1]sL a lo hi x)) :pattern ((%[1]sL a lo hi x) (select a j)))))
(assert (forall ((a (Array Int %[2]s)) (lo Int) (hi Int) (x %[2]s)) (! (=> (< lo hi) (= (%[1]s a lo hi x) (or (%[1]sL a lo (- hi 1) x) (= (select a (- hi 1)) x)))) :pattern ((%[1]s a lo hi x)))))
(assert (forall ((a (Array Int %[2]s)) (lo Int) (hi Int) (x %[2]s)) (! (=> (<= hi lo) (not (%[1]s a lo hi x))) :pattern ((%[1]s a lo hi x)))))`, n, elem))
	return n
}

func (g *Gen) fresh(prefix, srt string) string {
	g.n++
	c := fmt.Sprintf("%s!%d", prefix, g.n)
	g.decls = append(g.decls, fmt.Sprintf("(declare-const %s %s)", c, srt))
	return c
}

func (g *Gen) fact(f string) {
	if f == "true" {
		return
	}
	g.facts = append(g.facts, f)
	g.factAt = append(g.factAt, g.at)
}

func (g *Gen) name(prefix, srt, term string) string {
	if isAtom(term) {
		return term
	}
	c := g.fresh(prefix, srt)
	g.fact("(= " + c + " " + term + ")")
	return c
}

func isAtom(t string) bool { return !strings.HasPrefix(t, "(") }

func and(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "true" {
			continue
		}
		if x == "false" {
			return "false"
		}
		ys = append(ys, x)
	}
	switch len(ys) {
	case 0:
		return "true"
	case 1:
		return ys[0]
	}
	return "(and " + strings.Join(ys, " ") + ")"
}

func or(xs ...string) string {
	var ys []string
	for _, x := range xs {
		if x == "false" {
			continue
		}
		if x == "true" {
			return "true"
		}
		ys = append(ys, x)
	}
	switch len(ys) {
	case 0:
		return "false"
	case 1:
		return ys[0]
	}
	return "(or " + strings.Join(ys, " ") + ")"
}

func not(x string) string {
	switch x {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	if strings.HasPrefix(x, "(not ") {
		return x[5 : len(x)-1]
	}
	return "(not " + x + ")"
}

func imp(a, b string) string {
	if a == "true" {
		return b
	}
	if b == "true" || a == "false" {
		return "true"
	}
	return "(=> " + a + " " + b + ")"
}

func ite(c, a, b string) string {
	if a == b {
		return a
	}
	if c == "true" {
		return a
	}
	if c == "false" {
		return b
	}
	return "(ite " + c + " " + a + " " + b + ")"
}

func num(n int64) string {
	if n < 0 {
		return fmt.Sprintf("(- %d)", -n)
	}
	return fmt.Sprint(n)
}

// wf gives the facts that hold for any value of the type: ranges, slice shape, references allocated.
func (g *Gen) wf(t types.Type, term, alloc string) []string {
	switch t.(type) {
	case *SetT, *ArrT:
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Uint8:
			return []string{"(<= 0 " + term + ")", "(<= " + term + " 255)"}
		case types.Int, types.Int64, types.Int32, types.Int16, types.Int8, types.String, types.Bool:
			return nil
		}
		if u.Info()&types.IsUnsigned != 0 {
			return []string{"(<= 0 " + term + ")"}
		}
	case *types.Slice:
		return []string{fmt.Sprintf("(wfslice %s %s)", term, alloc)}
	case *types.Interface:
		return []string{"(< (valalloc " + term + ") " + alloc + ")"}
	case *types.Map:
		return []string{"(<= 0 " + term + ")", "(< " + term + " " + alloc + ")"}
	case *types.Pointer:
		if n := u.Elem(); !g.transparent(n) {
			return []string{"(oldref " + term + " " + alloc + ")"}
		}
		return []string{"(<= 0 " + term + ")", "(< " + term + " " + alloc + ")"}
	case *types.Struct:
		if !g.transparent(t) {
			return nil
		}
		g.sort(t)
		var out []string
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, g.wf(u.Field(i).Type(), "("+fieldSel(t, i)+" "+term+")", alloc)...)
		}
		return out
	}
	return nil
}

func hasRef(c *Ctx, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice, *types.Pointer, *types.Map, *types.Interface:
		return true
	case *types.Struct:
		if !c.transparent(t) {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if hasRef(c, u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

const prelude = `(set-logic ALL)
(declare-sort Str 0)
(declare-sort Val 0)
(declare-datatypes ((Slice 0)) (((mk-slice (sbase Int) (soff Int) (slength Int) (scap Int)))))
(declare-fun ix (Int Int) Int)
(assert (forall ((o Int) (k Int)) (! (= (ix o k) (+ o k)) :pattern ((ix o k)))))
(declare-fun send (Slice) Int)
(assert (forall ((s Slice)) (! (= (send s) (+ (soff s) (slength s))) :pattern ((send s)))))
(define-fun nilslice () Slice (mk-slice 0 0 0 0))
(define-fun wfslice ((s Slice) (a Int)) Bool (and (<= 0 (sbase s)) (< (sbase s) a) (<= 0 (soff s)) (<= 0 (slength s)) (<= (slength s) (scap s)) (=> (= (sbase s) 0) (= (scap s) 0))))
(define-fun oldref ((r Int) (a Int)) Bool (and (< (- (* 64 a)) r) (< r a)))
(declare-const nilval Val)
(declare-fun valalloc (Val) Int)
(assert (= (valalloc nilval) 0))
(declare-fun tagof (Val) Int)
(assert (= (tagof nilval) 0))
(assert (forall ((v Val)) (! (=> (= (tagof v) 0) (= v nilval)) :pattern ((tagof v)))))
(assert (forall ((v Val)) (! (<= 0 (tagof v)) :pattern ((tagof v)))))
(declare-const emptystr Str)
(declare-fun slen (Str) Int)
(declare-fun sat (Str Int) Int)
(declare-fun ssub (Str Int Int) Str)
(declare-fun scat (Str Str) Str)
(declare-fun slt (Str Str) Bool)
(declare-fun iseq (Str Str) Bool)
(declare-fun runestr (Int) Str)
(assert (forall ((c Int)) (! (and (<= 1 (slen (runestr c))) (<= (slen (runestr c)) 4)) :pattern ((runestr c)))))
(assert (= (slen emptystr) 0))
(assert (forall ((s Str)) (! (and (<= 0 (slen s)) (=> (= (slen s) 0) (= s emptystr))) :pattern ((slen s)))))
(assert (forall ((s Str) (i Int)) (! (and (<= 0 (sat s i)) (<= (sat s i) 255)) :pattern ((sat s i)))))
(assert (forall ((s Str) (i Int) (j Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s))) (= (slen (ssub s i j)) (- j i))) :pattern ((ssub s i j)))))
(assert (forall ((s Str) (i Int) (j Int) (k Int)) (! (=> (and (<= 0 i) (<= i j) (<= j (slen s)) (<= 0 k) (< k (- j i))) (= (sat (ssub s i j) k) (sat s (+ i k)))) :pattern ((sat (ssub s i j) k)))))
(assert (forall ((s Str) (j Int)) (! (=> (= j (slen s)) (= (ssub s 0 j) s)) :pattern ((ssub s 0 j)))))
(assert (forall ((a Str) (b Str)) (! (= (slen (scat a b)) (+ (slen a) (slen b))) :pattern ((scat a b)))))
(assert (forall ((a Str) (b Str) (k Int)) (! (=> (<= 0 k) (= (sat (scat a b) k) (ite (< k (slen a)) (sat a k) (sat b (- k (slen a)))))) :pattern ((sat (scat a b) k)))))
(assert (forall ((a Str)) (! (and (= (scat a emptystr) a)) :pattern ((scat a emptystr)))))
(assert (forall ((a Str)) (! (and (= (scat emptystr a) a)) :pattern ((scat emptystr a)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (= (scat (scat a b) c) (scat a (scat b c))) :pattern ((scat (scat a b) c)))))
(assert (forall ((a Str)) (! (not (slt a a)) :pattern ((slt a a)))))
(assert (forall ((a Str) (b Str)) (! (and (not (and (slt a b) (slt b a))) (or (slt a b) (slt b a) (= a b))) :pattern ((slt a b)))))
(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (slt a b) (slt b c)) (slt a c)) :pattern ((slt a b) (slt b c)))))
`

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
