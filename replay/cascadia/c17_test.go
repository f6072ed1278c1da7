package cascadia_test

import (
	"fmt"
	"math/rand"
	"testing"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
)

type S = [3]int

func add(a, b S) S { return S{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }
func less(a, b S) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// gen writes a selector and computes its specificity.
func gen(rng *rand.Rand, depth int) (string, S) {
	s, v := "", S{}
	parts := 1 + rng.Intn(3)
	for p := 0; p < parts; p++ {
		if p > 0 {
			s += []string{" ", " > ", "+", " ~ "}[rng.Intn(4)]
		}
		n := 0
		if rng.Intn(3) == 0 {
			s += "div"
			v = add(v, S{0, 0, 1})
			n++
		} else if rng.Intn(6) == 0 {
			s += "*"
			n++
		}
		for k := rng.Intn(3); k > 0 || n == 0; k-- {
			n++
			switch rng.Intn(5) {
			case 0:
				s += "#id"
				v = add(v, S{1, 0, 0})
			case 1:
				s += ".c"
				v = add(v, S{0, 1, 0})
			case 2:
				s += "[x=\"y\"]"
				v = add(v, S{0, 1, 0})
			case 3:
				s += []string{":hover", ":first-child", ":nth-child(2n+1)", ":root", ":empty", ":focus-within", ":only-child", ":lang(de)", ":contains(\"x\")"}[rng.Intn(9)]
				v = add(v, S{0, 1, 0})
			default:
				if depth == 0 {
					s += ".d"
					v = add(v, S{0, 1, 0})
					continue
				}
				f := rng.Intn(4)
				s += []string{":is(", ":not(", ":has(", ":where("}[f]
				var max S
				for l := rng.Intn(4); l >= 0; l-- {
					t, w := gen(rng, depth-1)
					s += t
					if l > 0 {
						s += ", "
					}
					if less(max, w) {
						max = w
					}
				}
				s += ")"
				if f != 3 {
					v = add(v, max)
				}
			}
		}
	}
	return s, v
}

// Random selectors and their specificities.
func TestVerif(t *testing.T) {
	c := newCampaign(t, "random selectors with nested lists and pairs of specificities; non-trivial: a specificity with two non-zero components")
	defer c.finish()
	for c.more() {
		why := ""
		s, v := gen(c.rng, 2)
		if c.rng.Intn(3) == 0 {
			s += "::before"
			v = add(v, S{0, 0, 1})
		}
		a, b := S{c.rng.Intn(3), c.rng.Intn(300), c.rng.Intn(3)}, S{c.rng.Intn(3), c.rng.Intn(300), c.rng.Intn(3)}
		if c.rng.Intn(3) == 0 {
			b = a
			b[c.rng.Intn(3)] += c.rng.Intn(3)
		}
		c.guard(map[string]any{"selector": s, "a": a, "b": b}, func() {
			sel, err := cascadia.ParseWithPseudoElement(s)
			if err != nil {
				why = err.Error()
			} else if got := S(sel.Specificity()); got != v {
				why = fmt.Sprintf("the specificity of %s is %v instead of %v", s, got, v)
			}
			if got := cascadia.Specificity(a).Less(cascadia.Specificity(b)); got != less(a, b) {
				why = fmt.Sprintf("%v.Less(%v) is %v", a, b, got)
			}
			if got := S(cascadia.Specificity(a).Add(cascadia.Specificity(b))); got != add(a, b) {
				why = fmt.Sprintf("%v.Add(%v) is %v", a, b, got)
			}
		})
		if why != "" {
			c.fail(map[string]any{"selector": s, "a": a, "b": b, "why": why})
		}
		key := ""
		if v[0] != 0 && v[1] != 0 || v[1] != 0 && v[2] != 0 || v[0] != 0 && v[2] != 0 {
			key = s
		}
		c.done(key, map[string]any{"selector": s, "specificity": v})
	}
}
