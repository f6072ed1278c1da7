package merge_test

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

// genSel writes a selector and returns the classes that it registers.
func genSel(rng *rand.Rand, names []string, depth int) (string, []string) {
	var classes []string
	compound := func() string {
		s := ""
		switch rng.Intn(6) {
		case 0:
			s = "div"
		case 1:
			s = "#id"
		}
		for n := rng.Intn(3); n > 0 || s == ""; n-- {
			c := pick(rng, names)
			s += "." + esc(c)
			classes = append(classes, c)
		}
		if depth > 0 && rng.Intn(4) == 0 {
			var in []string
			var cs []string
			for n := rng.Intn(3); n >= 0; n-- {
				t, c := genSel(rng, names, depth-1)
				in, cs = append(in, t), append(cs, c...)
			}
			f := []string{":is", ":where", ":not", ":has"}[rng.Intn(4)]
			s += f + "(" + strings.Join(in, []string{",", ", "}[rng.Intn(2)]) + ")"
			if f == ":is" || f == ":where" {
				classes = append(classes, cs...)
			}
		}
		if rng.Intn(4) == 0 {
			s += pick(rng, []string{":hover", ":focus", "[x=y]", ":nth-child(2)", "[a=\"b,c\"]"})
		}
		return s
	}
	s := compound()
	for n := rng.Intn(3); n > 1; n-- {
		s += []string{" ", " > ", " + ", "~"}[rng.Intn(4)] + compound()
	}
	return s, classes
}

// nested writes an at-rule with rules in it.
func nested(rng *rand.Rand, names []string, depth int) string {
	s := pick(rng, []string{"@media print", "@supports (x:y)", "@media x"}) + " {"
	for n := rng.Intn(3); n > 0; n-- {
		t, _ := genSel(rng, names, 1)
		s += t + " { top: 1px"
		if depth > 0 && rng.Intn(3) == 0 {
			s += "; " + nested(rng, names, depth-1)
		}
		s += " } "
		if depth > 0 && rng.Intn(3) == 0 {
			s += nested(rng, names, depth-1)
		}
	}
	return s + "}"
}

// Random stylesheets: which classes are registered, with which declarations.
func TestVerif(t *testing.T) {
	c := newCampaign(t, "1 to 3 stylesheets with selector groups, :is/:where/:not/:has, nested at-rules and at-rules to skip, some of them broken; non-trivial: a class named by two rules")
	defer c.finish()
	for c.more() {
		names := namePool[:3+c.rng.Intn(len(namePool)-3)]
		want := map[string][]string{}
		m := merge.NewMerger(nil, true)
		var sheets []string
		why, twice := "", false
		for n := 1 + c.rng.Intn(3); n > 0 && why == ""; n-- {
			css := ""
			next := map[string][]string{}
			for k, v := range want {
				next[k] = v
			}
			open := 0
			skipping := 0
			for r := 1 + c.rng.Intn(6); r > 0; r-- {
				switch c.rng.Intn(8) {
				case 0:
					css += pick(c.rng, atPool) + " {\n"
					open++
				case 1:
					if open > 0 && skipping == 0 {
						css += "}\n"
						open--
					}
				case 2:
					css += []string{"@import \"x.css\";\n", "@font-face { font-family: x }\n", "@keyframes k { from { width: 1px } to { width: 2px } }\n",
						"@layer l { .a { color: green } }\n", "/* .a { color: green } */\n", "@container (min-width: 1px) { .a { color: green } @media print { .b { x: y } } }\n"}[c.rng.Intn(6)]
				case 3:
					css += "div, #id > p { color: blue; width: 1px }\n"
				}
				var sels, classes []string
				for g := c.rng.Intn(3); g >= 0; g-- {
					s, cs := genSel(c.rng, names, 2)
					sels, classes = append(sels, s), append(classes, cs...)
				}
				var decls []string
				body := ""
				for d := c.rng.Intn(5) - 1; d >= 0; d-- {
					p, v := pick(c.rng, propPool), fmt.Sprintf("%dpx", c.rng.Intn(1000))
					if c.rng.Intn(4) == 0 {
						p = "--v"
					}
					decls = append(decls, p+": "+v)
					body += p + ": " + v + ";"
					if c.rng.Intn(12) == 0 { // rules nested in a rule are set aside
						body += nested(c.rng, names, 1) + "\n"
					}
				}
				if c.rng.Intn(12) == 0 {
					css += pick(c.rng, []string{".a:::", ".b:no-such-class", "div..a"}) + " { color: red; " + nested(c.rng, names, 1) + " width: 1px }\n"
				}
				css += strings.Join(sels, []string{",", ", ", " ,\n"}[c.rng.Intn(3)]) + " {" + body + "}\n"
				for _, x := range classes {
					if _, ok := next[x]; ok {
						twice = true
					}
					next[x] = decls
				}
			}
			css += strings.Repeat("}", open)
			broken := c.rng.Intn(5) == 0
			if broken {
				css += "\n.a { color: red; width }"
			}
			sheets = append(sheets, css)
			c.guard(map[string]any{"stylesheets": sheets}, func() {
				err := m.AddRules(strings.NewReader(css), false)
				if !broken && err != nil {
					why = "loading failed: " + err.Error()
				}
				if err == nil {
					want = next
				}
				got := map[string][]string{}
				for x, r := range m.Rules() {
					got[x] = nil
					for _, d := range r.Declarations {
						got[x] = append(got[x], d.Property+": "+d.Value)
					}
				}
				if broken && err == nil {
					want = got // what a broken stylesheet means is not specified
					return
				}
				for _, x := range keys(got) {
					if _, ok := want[x]; !ok {
						why = fmt.Sprintf("class %q is registered (%v)", x, got[x])
					}
				}
				for _, x := range keys(want) {
					if g, ok := got[x]; !ok {
						why = fmt.Sprintf("class %q is not registered", x)
					} else if !reflect.DeepEqual(g, want[x]) {
						why = fmt.Sprintf("class %q is registered with %v instead of %v", x, g, want[x])
					}
				}
			})
		}
		if why != "" {
			c.fail(map[string]any{"stylesheets": sheets, "why": why})
		}
		key := ""
		if twice {
			key = strings.Join(sheets, "\x00")
		}
		c.done(key, sheets)
	}
}
