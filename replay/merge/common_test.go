// Replay: runs the real code against an independent oracle written from the text of the properties. It is used to find a
// concrete input when the verifier rejects an obligation, and to spot-check the contracts that the verifier assumes.
// It uses the exported interface only.
package merge_test

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	merge "github.com/tylantz/go-tailwind-merge"
)

func init() { log.SetOutput(io.Discard) }

type campaign struct {
	t        *testing.T
	rng      *rand.Rand
	end      time.Time
	evals    int
	distinct map[string]bool
	samples  []any
	rule     string
	exhaust  bool
}

func newCampaign(t *testing.T, rule string) *campaign {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	secs, err := strconv.ParseFloat(os.Getenv("VERIF_SECS"), 64)
	if err != nil {
		secs = 3
	}
	return &campaign{t: t, rng: rand.New(rand.NewSource(seed)), end: time.Now().Add(time.Duration(secs * float64(time.Second))),
		distinct: map[string]bool{}, rule: rule}
}

func (c *campaign) more() bool { return time.Now().Before(c.end) }

// case records one case; key tells distinct ones apart ("" if the case is trivial).
func (c *campaign) done(key string, sample any) {
	c.evals++
	if key != "" && !c.distinct[key] && len(c.distinct) < 2_000_000 {
		c.distinct[key] = true
		if len(c.samples) < 3 {
			c.samples = append(c.samples, sample)
		}
	}
}

func (c *campaign) write(name string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(filepath.Join(os.Getenv("VERIF_OUT"), name), append(b, '\n'), 0o644)
}

// finish writes the statistics.
func (c *campaign) finish() {
	c.write("stats.json", map[string]any{"evaluations": c.evals, "distinct_nontrivial": len(c.distinct), "rule": c.rule, "samples": c.samples, "exhaustive": c.exhaust})
}

// fail reports a failing input.
func (c *campaign) fail(v map[string]any) {
	c.write("failure.json", v)
	c.finish()
	b, _ := json.Marshal(v)
	c.t.Fatalf("REPLAY-FAIL %s", b)
}

// guard turns a panic or a hang of f into a failure.
func (c *campaign) guard(input map[string]any, f func()) {
	done := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				done <- fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
				return
			}
			done <- ""
		}()
		f()
	}()
	select {
	case s := <-done:
		if s != "" {
			input["why"] = s
			c.fail(input)
		}
	case <-time.After(20 * time.Second):
		input["why"] = "did not return within 20 s"
		c.fail(input)
	}
}

// ---- the property table, read independently of the code under test

var table = readTable()

func readTable() map[string][]string {
	b, err := os.ReadFile("internal/props/gen/properties.json")
	if err != nil {
		panic(err)
	}
	raw := map[string]struct{ Computed any }{}
	if err := json.Unmarshal(b, &raw); err != nil {
		panic(err)
	}
	direct := map[string][]string{}
	for n, p := range raw {
		l, ok := p.Computed.([]any)
		if !ok {
			direct[n] = []string{n}
			continue
		}
		for _, x := range l {
			direct[n] = append(direct[n], x.(string))
		}
	}
	out := map[string][]string{}
	for n := range direct {
		seen, leaves := map[string]bool{}, map[string]bool{}
		var visit func(string)
		visit = func(x string) {
			if seen[x] {
				return
			}
			seen[x] = true
			d, ok := direct[x]
			if !ok || len(d) == 1 && d[0] == x {
				leaves[x] = true
				return
			}
			for _, y := range d {
				if y == x {
					leaves[x] = true
				}
				visit(y)
			}
		}
		visit(n)
		out[n] = keys(leaves)
	}
	return out
}

// longhands returns what a declaration of prop sets.
func longhands(prop string) []string {
	if l, ok := table[prop]; ok {
		return l
	}
	return []string{prop}
}

func keys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// ---- stylesheets

type decl struct {
	prop, value string
	important   bool
	vars        []string // custom properties used
}

// circ is a circumstance.
type circ struct {
	at      []string // e.g. "@media (min-width:640px)", from the outside in
	pseudos []string
	elem    string // e.g. "before"
	complex string // with § where the class goes; excludes the two above
}

func (x circ) key() string {
	if x.complex != "" {
		return strings.Join(x.at, "{") + "|" + x.complex
	}
	set := map[string]bool{}
	for _, p := range x.pseudos {
		set[p] = true
	}
	return strings.Join(x.at, "{") + "|" + strings.Join(keys(set), "") + "|" + x.elem
}

type rule struct {
	classes []string
	circ    circ
	decls   []decl
}

func esc(name string) string {
	var b strings.Builder
	lead := true
	for _, r := range name {
		switch {
		case r >= '0' && r <= '9' && lead:
			fmt.Fprintf(&b, `\%x `, r)
		case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || r >= '0' && r <= '9' || r > 127:
			b.WriteRune(r)
		case r == '-' && len(name) > 1:
			b.WriteRune(r)
			continue
		default:
			b.WriteByte('\\')
			b.WriteRune(r)
		}
		lead = false
	}
	return b.String()
}

func (r rule) text(rng *rand.Rand) string {
	var sels []string
	for _, c := range r.classes {
		s := "." + esc(c)
		if r.circ.complex != "" {
			s = strings.ReplaceAll(r.circ.complex, "§", s)
		} else {
			ps := append([]string{}, r.circ.pseudos...)
			rng.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
			s += strings.Join(ps, "")
			if r.circ.elem != "" {
				s += "::" + r.circ.elem
			}
		}
		sels = append(sels, s)
	}
	var b strings.Builder
	for _, a := range r.circ.at {
		b.WriteString(a + " { ")
	}
	b.WriteString(strings.Join(sels, ", ") + " { ")
	for i, d := range r.decls {
		imp := ""
		if d.important {
			imp = []string{"!important", " !important", " ! important", "!IMPORTANT", " !Important"}[rng.Intn(5)]
		}
		end := "; "
		if i == len(r.decls)-1 && rng.Intn(2) == 0 {
			end = ""
		}
		b.WriteString(d.prop + ": " + d.value + imp + end)
	}
	b.WriteString("}" + strings.Repeat(" }", len(r.circ.at)) + "\n")
	return b.String()
}

var pseudoPool = []string{":hover", ":focus", ":active", ":first-child", ":last-child", ":disabled", ":checked", ":visited", ":enabled", ":target",
	":focus-within", ":focus-visible", ":read-only", ":empty", ":root", ":link", ":only-child", ":nth-child(2n+1)", ":nth-child(3n+1)", ":not(.qq)", ":lang(de)"}
var elemPool = []string{"before", "after", "placeholder", "selection", "marker", "first-line", "first-letter", "backdrop"}
var atPool = []string{"@media (min-width:640px)", "@media (min-width:768px)", "@media print", "@supports (display:grid)", "@media (display:grid)",
	"@media (prefers-color-scheme:dark)", "@supports not (display:grid)",
	"@supports (--x:a)", "@supports (--x:A)", "@supports (--x:a b)", "@supports (--x:ab)", "@supports (--X:a)"}
var complexPool = []string{"§ > *", "div §", "div > §", "a > §", "#id §", "§ + p", "§ ~ p", "§[data-x=\"y\"]", "§[data-x=\"z\"]", "§:is(.zz)",
	"p:not(.qq) + §", "§ :hover", "§:hover > *", "§:nth-child(2n+1) span", ".zz §", ".zz§", "a.zz §", "§[title~=\"a b\"] > b"}
var namePool = []string{"p-4", "md:p-4", "hover:bg-red", "w-1/2", "[&>*]:m-1", "a", "b", "aa", "é", "x.5", "p-4!", "-m-2", "2xl", "c#1", "a(b)", "A", "bold", "zz-1", "m", "\\", "a,b", "--x", "_"}
var propPool = []string{"margin", "margin-top", "margin-left", "padding", "padding-top", "padding-bottom", "border", "border-top", "border-width", "border-top-width",
	"border-color", "border-left-color", "border-block-start", "color", "width", "height", "background", "background-position", "background-position-x", "background-color",
	"font", "font-size", "line-height", "fill", "stroke", "flex", "flex-grow", "inset", "top", "display", "overflow", "overflow-x", "transition", "grid-area", "gap"}
var customPool = []string{"--a", "--b", "--c", "--d", "--A", "--e-1", "--f\\.g", "--a-1", "--ab", "--e", "--e-1-b"}
var unknownPool = []string{"unknown", "group", "js-x", "é2", "p-5"}

func customName(s string) string { return strings.ReplaceAll(s, `\`, "") }

func pick(rng *rand.Rand, l []string) string { return l[rng.Intn(len(l))] }

func genCirc(rng *rand.Rand, complexToo bool) circ {
	var x circ
	for rng.Intn(3) == 0 && len(x.at) < 3 {
		x.at = append(x.at, pick(rng, atPool))
	}
	switch rng.Intn(5) {
	case 0, 1:
	case 2, 3:
		for i := rng.Intn(3); i >= 0; i-- {
			x.pseudos = append(x.pseudos, pick(rng, pseudoPool))
		}
		if rng.Intn(3) == 0 {
			x.elem = pick(rng, elemPool)
		}
	default:
		if complexToo {
			x.complex = pick(rng, complexPool)
		} else {
			x.elem = pick(rng, elemPool)
		}
	}
	return x
}

func genDecl(rng *rand.Rand, props, customs []string) decl {
	d := decl{prop: pick(rng, props)}
	if rng.Intn(3) == 0 {
		d.prop = pick(rng, customs)
	}
	switch rng.Intn(7) {
	case 0, 1, 2:
		v := pick(rng, customs)
		d.vars = []string{customName(v)}
		d.value = []string{"var(%s)", "calc(1px + var( %s ) * 2)", "VAR(%s)", "var(%s, 1px)"}[rng.Intn(4)]
		d.value = strings.ReplaceAll(d.value, "%s", v)
	case 3:
		v, w := pick(rng, customs), pick(rng, customs)
		d.vars = []string{customName(v), customName(w)}
		d.value = "var(" + v + ", var(" + w + "))"
		if rng.Intn(2) == 0 {
			d.value = "0 var(" + v + ") var(" + w + ")"
		}
	default:
		d.value = []string{"1px", "red", "auto", "0", "\"var(--a) !important\"", "url(x.png)"}[rng.Intn(6)]
	}
	d.important = rng.Intn(5) == 0
	return d
}

type mergeCase struct {
	Css      []string // one or more stylesheets
	List     string
	KeepSort bool
	rules    map[string]*rule // last rule of each class
	tokens   []string
}

func genCase(rng *rand.Rand) *mergeCase {
	k := &mergeCase{KeepSort: rng.Intn(2) == 0, rules: map[string]*rule{}}
	names := append([]string{}, namePool...)
	rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:2+rng.Intn(6)]
	props := make([]string, 1+rng.Intn(5))
	for i := range props {
		props[i] = pick(rng, propPool)
	}
	customs := make([]string, 1+rng.Intn(4))
	pool := customPool
	if rng.Intn(3) == 0 {
		pool = []string{"--a", "--a-1", "--ab", "--A"} // names that begin with one another
	}
	for i := range customs {
		customs[i] = pick(rng, pool)
	}
	circs := make([]circ, 1+rng.Intn(3))
	for i := range circs {
		circs[i] = genCirc(rng, true)
	}
	k.Css = make([]string, 1+rng.Intn(2))
	for i := range k.Css {
		for j := 1 + rng.Intn(len(names)+2); j > 0; j-- {
			r := rule{circ: circs[rng.Intn(len(circs))]}
			for _, n := range names {
				if len(r.classes) == 0 && rng.Intn(3) == 0 || rng.Intn(12) == 0 {
					r.classes = append(r.classes, n)
				}
			}
			if len(r.classes) == 0 {
				r.classes = []string{pick(rng, names)}
			}
			for n := rng.Intn(4) + rng.Intn(2); n >= 0; n-- {
				r.decls = append(r.decls, genDecl(rng, props, customs))
			}
			if rng.Intn(20) == 0 {
				r.decls = nil
			}
			k.Css[i] += r.text(rng)
			for _, n := range r.classes {
				k.rules[n] = &r
			}
		}
	}
	k.List, k.tokens = genList(rng, names)
	return k
}

func genList(rng *rand.Rand, names []string) (string, []string) {
	var toks []string
	list := ""
	if rng.Intn(6) == 0 {
		list = " "
	}
	n := rng.Intn(7) + rng.Intn(3)
	long := rng.Intn(60) == 0
	if long {
		n = 20 << rng.Intn(6)
	}
	for ; n >= 0; n-- {
		c := pick(rng, names)
		if rng.Intn(7) == 0 {
			c = pick(rng, unknownPool)
		}
		if long && rng.Intn(3) > 0 {
			c = "u" + strconv.Itoa(n)
		}
		if len(toks) > 0 {
			list += []string{" ", " ", " ", " ", "  ", "\t", "\n", " \t "}[rng.Intn(8)]
		}
		list += c
		toks = append(toks, c)
	}
	if rng.Intn(6) == 0 {
		list += "\n"
	}
	return list, toks
}

// ---- oracle

type pkey struct{ prop, circ string }

type oracle struct {
	tokens             []string
	lastSet, lastImp   map[pkey]string
	used               map[string]bool
	sets               map[string]map[pkey]bool // class -> what it sets
	unknown            map[string]bool
	keep               map[string]bool
	setAgainEverywhere map[string]bool // class -> each property that it sets is set again by a later, different class
}

func isCustom(p string) bool { return strings.HasPrefix(p, "--") }

func (k *mergeCase) oracle() *oracle {
	o := &oracle{tokens: k.tokens, lastSet: map[pkey]string{}, lastImp: map[pkey]string{}, used: map[string]bool{}, sets: map[string]map[pkey]bool{},
		unknown: map[string]bool{}, keep: map[string]bool{}, setAgainEverywhere: map[string]bool{}}
	lastVars, impVars := map[pkey][]string{}, map[pkey][]string{}
	for _, c := range k.tokens {
		r := k.rules[c]
		if r == nil {
			o.unknown[c] = true
			o.keep[c] = true
			continue
		}
		o.sets[c] = map[pkey]bool{}
		for _, d := range r.decls {
			for _, p := range longhands(customName(d.prop)) {
				x := pkey{p, r.circ.key()}
				o.sets[c][x] = true
				o.lastSet[x] = c
				lastVars[x] = d.vars
				if d.important {
					o.lastImp[x] = c
					impVars[x] = d.vars
				}
			}
		}
	}
	eff := map[pkey][]string{}
	for x, v := range lastVars {
		eff[x] = v
		if _, ok := o.lastImp[x]; ok {
			eff[x] = impVars[x]
		}
	}
	for changed := true; changed; {
		changed = false
		for x, vs := range eff {
			if isCustom(x.prop) && !o.used[x.prop] {
				continue
			}
			for _, v := range vs {
				if !o.used[v] {
					o.used[v] = true
					changed = true
				}
			}
		}
	}
	for x, c := range o.lastSet {
		if !isCustom(x.prop) || o.used[x.prop] {
			o.keep[c] = true
		}
	}
	for _, c := range o.lastImp {
		o.keep[c] = true
	}
	for c, s := range o.sets {
		again := true
		for x := range s {
			if o.lastSet[x] == c {
				again = false
			}
		}
		o.setAgainEverywhere[c] = again
	}
	return o
}

func load(k *mergeCase, cache merge.Cache) (*merge.Merger, error) {
	m := merge.NewMerger(cache, k.KeepSort)
	for _, css := range k.Css {
		if err := m.AddRules(strings.NewReader(css), false); err != nil {
			return nil, err
		}
	}
	return m, nil
}

func set(l []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return m
}

// mergeCampaign checks random lists with random stylesheets; check returns what is wrong, or "".
func mergeCampaign(t *testing.T, rule string, nontrivial func(*mergeCase, *oracle) bool, check func(c *campaign, k *mergeCase, m *merge.Merger, o *oracle, got string) string) {
	c := newCampaign(t, rule)
	defer c.finish()
	for c.more() {
		k := genCase(c.rng)
		names := keys(k.rules)
		var m *merge.Merger
		for n := 0; n < 60; n++ {
			if n > 0 {
				k.List, k.tokens = genList(c.rng, names)
			}
			why, got := "", ""
			c.guard(map[string]any{"stylesheets": k.Css, "list": k.List, "keepSort": k.KeepSort}, func() {
				if m == nil {
					var err error
					m, err = load(k, nil)
					if err != nil {
						why = "loading the stylesheet failed: " + err.Error()
						return
					}
				}
				got = m.Merge(k.List)
				why = check(c, k, m, k.oracle(), got)
			})
			if why != "" {
				c.fail(map[string]any{"stylesheets": k.Css, "list": k.List, "keepSort": k.KeepSort, "result": got, "why": why})
			}
			key := ""
			if nontrivial(k, k.oracle()) {
				key = k.List + "\x00" + strings.Join(k.Css, "\x00")
			}
			c.done(key, map[string]any{"stylesheets": k.Css, "list": k.List, "result": got})
		}
	}
}

// conflict tells whether two classes set the same property in the same circumstance.
func conflict(o *oracle) bool {
	n := map[pkey]int{}
	for _, s := range o.sets {
		for x := range s {
			n[x]++
			if n[x] > 1 {
				return true
			}
		}
	}
	return false
}

func anyTrue(m map[string]bool) bool {
	for _, b := range m {
		if b {
			return true
		}
	}
	return false
}
