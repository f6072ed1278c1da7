package cascadia_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
)

var frags = []string{".a", "#b", "div", "*", "[x]", "[x=y]", "[x=\"y\" i]", "[x#=(a.b)]", ":hover", "::before", ":before", ":not(", ":is(", ":has(", ":haschild(", ":where(", ":contains(", ":containsown(", ":matches(", ":matchesown(",
	":nth-child(", ":nth-last-of-type(", "2n+1", "odd", "even", "-n+3", "n", "+", "-", ")", "(", "[", "]", "{", "}", ">", "~", ",", " ", "\\", "\\41 ", "\\110000", "\\", "\"", "'", ":", "::", ".", "#", "/*", "*/", "|", "=", "~=", "|=",
	"^=", "$=", "*=", "#=", "!=", "!", "i", "é", "\x00", "\xff", "\n", "\t", "\r\n", "\f", "1", "12345678901234567890", ":lang(", "en", ":root", ":first-child", "::-webkit-scrollbar", ":only-of-type", "--", "-", "_"}

func use(s cascadia.Sel, what string) string {
	if s == nil {
		return what + " is missing"
	}
	if !strings.Contains(what, ",") {
		_ = s.String() // includes that of its parts
		_ = s.Specificity()
		_ = s.PseudoElement()
	}
	switch t := s.(type) {
	case cascadia.CompoundSelector:
		_ = t.PseudoElements()
		_ = t.PseudoElementsString()
		for i, x := range t.Selectors() {
			if w := use(x, fmt.Sprintf("the selector, part %d", i)); w != "" {
				return w
			}
		}
	case cascadia.CombinedSelector:
		if w := use(t.First(), "the selector, first"); w != "" {
			return w
		}
		return use(t.Second(), "the selector, second")
	case cascadia.IsPseudoClassSelector:
		for i, x := range t.Selectors() {
			if w := use(x, fmt.Sprintf("the selector, alternative %d", i)); w != "" {
				return w
			}
		}
	case cascadia.WherePseudoClassSelector:
		for i, x := range t.Selectors() {
			if w := use(x, fmt.Sprintf("the selector, alternative %d", i)); w != "" {
				return w
			}
		}
	}
	return ""
}

func oneOf(r *rand.Rand, l ...string) string { return l[r.Intn(len(l))] }

func genIdent(r *rand.Rand) string {
	return oneOf(r, "a", "b", "-x", "--y", "é", "\\41 b", "a\\:b", "a\\", "\\110000", "_1", "1", "")
}

func genString(r *rand.Rand) string {
	q := oneOf(r, `"`, "'")
	return q + oneOf(r, "", "a", "a b", `\"`, `\'`, "\\\r\n", "\\\n", "\\\f", "\\", "\\e9 ", "\n") + oneOf(r, q, q, q, "")
}

func genRegex(r *rand.Rand) string {
	return oneOf(r, "a", "(a|b)", "a+", "+", "*", "(?z)", "[a-z]", "[z-a]", "(?", "a{2,1}", "\\", "\\p{x}", "", "a(", "(", "[", "\\C", "(a)[b]{1001}", "^$", ".")
}

func genSpace(r *rand.Rand) string {
	return oneOf(r, "", "", "", "", " ", "\t\n", "/**/", "/* a */ ", "/*", "/", "\f", "\r\n")
}

func genNth(r *rand.Rand) string {
	return oneOf(r, "", "+", "-") + oneOf(r, "", "2", "0", "99999999999999999999") + oneOf(r, "", "n", "N") + genSpace(r) + oneOf(r, "", "+", "-") + genSpace(r) + oneOf(r, "", "1", "odd", "even", "o", "99999999999999999999")
}

func genSimple(r *rand.Rand, depth int) string {
	n := 8
	if depth > 0 {
		n = 12
	}
	s := genSpace
	switch r.Intn(n) {
	case 0:
		return genIdent(r)
	case 1:
		return "." + genIdent(r)
	case 2:
		return "#" + genIdent(r)
	case 3:
		op := oneOf(r, "=", "!=", "~=", "|=", "^=", "$=", "*=", "#=", "#=", "@=", "=!", "")
		val := ""
		switch {
		case op == "":
		case op == "#=" || r.Intn(8) == 0:
			val = genRegex(r)
		case r.Intn(2) == 0:
			val = genString(r)
		default:
			val = genIdent(r)
		}
		return "[" + s(r) + genIdent(r) + s(r) + op + s(r) + val + s(r) + oneOf(r, "", "", "i", "I", "s") + s(r) + "]"
	case 4:
		return ":" + oneOf(r, "hover", "root", "empty", "first-child", "last-child", "first-of-type", "last-of-type", "only-child", "only-of-type",
			"input", "link", "enabled", "focus-within", "popover-open", "read-only", "before", "after", "nope", "", "-webkit-scrollbar")
	case 5:
		return "::" + oneOf(r, "before", "after", "marker", "-webkit-scrollbar", "placeholder", "selection", "nope", "", "focus-visible", "cue")
	case 6:
		switch r.Intn(4) {
		case 0:
			return ":" + oneOf(r, "contains", "containsOwn") + "(" + s(r) + oneOf(r, genString(r), genIdent(r)) + s(r) + ")"
		case 1:
			return ":" + oneOf(r, "matches", "matchesOwn") + "(" + s(r) + genRegex(r) + s(r) + ")"
		case 2:
			return ":lang(" + s(r) + genIdent(r) + s(r) + ")"
		}
		return "*" + oneOf(r, "", "|*", "|")
	case 7:
		return ":" + oneOf(r, "nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type") + "(" + s(r) + genNth(r) + s(r) + ")"
	}
	return ":" + oneOf(r, "not", "is", "where", "has", "haschild") + "(" + s(r) + genGroup(r, depth-1) + s(r) + ")"
}

func genGroup(r *rand.Rand, depth int) string {
	var b strings.Builder
	for n := r.Intn(2); ; n-- {
		for k := r.Intn(4); k >= 0; k-- {
			b.WriteString(genSimple(r, depth))
			if r.Intn(3) == 0 {
				b.WriteString(genSpace(r) + oneOf(r, " ", ">", "+", "~", "||") + genSpace(r))
			}
		}
		if n <= 0 {
			break
		}
		b.WriteString(genSpace(r) + "," + genSpace(r))
	}
	return b.String()
}

// mutate leaves s as it is, cuts it off, or inserts, deletes or replaces a byte.
func mutate(r *rand.Rand, s string) []byte {
	b := []byte(s)
	if len(b) == 0 {
		return b
	}
	k := r.Intn(len(b))
	switch r.Intn(8) {
	case 0, 1, 2:
		return b
	case 3, 4:
		return b[:k]
	case 5:
		return append(b[:k:k], b[k+1:]...)
	case 6:
		return append(append(b[:k:k], byte(r.Intn(256))), b[k:]...)
	}
	const special = "()[]\\\"':.#,= \n\x00\xff"
	b[k] = special[r.Intn(len(special))]
	return b
}

// Random strings made of fragments of selectors.
func TestVerif(t *testing.T) {
	c := newCampaign(t, "sequences of up to 14 fragments of selectors or random bytes, also cut off and repeated, and selectors derived from a grammar, also mutated; non-trivial: accepted by one of the parsers")
	defer c.finish()
	for c.more() {
		var b []byte
		mixed := c.evals%2 == 0
		if !mixed {
			b = mutate(c.rng, genGroup(c.rng, 2))
		}
		for n := c.rng.Intn(14); mixed && n >= 0; n-- {
			if c.rng.Intn(40) == 0 {
				b = append(b, byte(c.rng.Intn(256)))
				continue
			}
			f := frags[c.rng.Intn(len(frags))]
			if c.evals%500 == 499 {
				f = string(bytes.Repeat([]byte(f), c.rng.Intn(20000)))
			}
			b = append(b, f...)
		}
		if c.rng.Intn(3) == 0 {
			b = b[:c.rng.Intn(len(b)+1)]
		}
		s := string(b)
		if c.rng.Intn(3) == 0 {
			s += strings.Repeat(")", c.rng.Intn(3))
		}
		accepted, why := false, ""
		c.guard(map[string]any{"input": []byte(s), "text": s}, func() {
			if x, err := cascadia.Parse(s); err == nil {
				accepted = true
				why += use(x, "the selector")
			}
			if x, err := cascadia.ParseWithPseudoElement(s); err == nil {
				accepted = true
				why += use(x, "the selector")
			}
			for _, f := range []func(string) (cascadia.SelectorGroup, error){cascadia.ParseGroup, cascadia.ParseGroupWithPseudoElements} {
				if g, err := f(s); err == nil {
					accepted = true
					_ = g.String()
					for i, x := range g {
						why += use(x, fmt.Sprintf("selector %d", i))
					}
					if len(g) == 0 {
						why += "no selectors"
					}
				}
			}
		})
		if why != "" {
			c.fail(map[string]any{"input": []byte(s), "text": s, "why": why})
		}
		key := ""
		if accepted && len(s) < 500 {
			key = s
		}
		if len(s) > 200 {
			s = s[:200] + "..."
		}
		c.done(key, s)
	}
}
