package merge_test

import (
	"fmt"
	"strings"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

type pair struct {
	x, y   circ
	n1, n2 string
	css    string
}

// Two classes with the same declarations, in all pairs of circumstances of a pool and in random ones.
func TestVerif(t *testing.T) {
	c := newCampaign(t, "pairs of classes with the same declarations: all pairs of a pool of circumstances, then random ones; non-trivial: the circumstances are not both plain")
	defer c.finish()
	for _, down := range []bool{false, true} {
		allApart(c, down)
	}
	var pool []circ
	pool = append(pool, circ{})
	for _, p := range pseudoPool {
		pool = append(pool, circ{pseudos: []string{p}})
	}
	for _, e := range elemPool {
		pool = append(pool, circ{elem: e}, circ{elem: e, pseudos: []string{":hover"}})
	}
	for _, a := range atPool {
		pool = append(pool, circ{at: []string{a}}, circ{at: []string{a}, pseudos: []string{":hover"}}, circ{at: []string{a, "@media print"}}, circ{at: []string{a, "@media print"}, pseudos: []string{":focus", ":hover"}, elem: "after"},
			circ{at: []string{a}, complex: "§ > *"})
	}
	for _, x := range complexPool {
		pool = append(pool, circ{complex: x})
	}
	pool = append(pool, circ{pseudos: []string{":hover", ":focus"}}, circ{pseudos: []string{":hover", ":hover"}}, circ{pseudos: []string{":focus", ":hover", ":active"}})
	var batch []pair
	flush := func() {
		if len(batch) == 0 {
			return
		}
		css := ""
		for _, p := range batch {
			css += p.css
		}
		var m *merge.Merger
		for i := -1; i < len(batch); i++ {
			why, got := "", ""
			p := pair{css: css}
			if i >= 0 {
				p = batch[i]
			}
			list := p.n1 + " " + p.n2
			c.guard(map[string]any{"stylesheet": p.css, "list": list}, func() {
				if i < 0 {
					m = merge.NewMerger(nil, true)
					if err := m.AddRules(strings.NewReader(css), false); err != nil {
						why = err.Error()
					}
					return
				}
				got = m.Merge(list)
				if p.x.key() != p.y.key() {
					if got != list {
						why = "the rules apply in different circumstances but a class was removed"
					}
				} else if got != p.n2 {
					why = "the rules apply in the same circumstance but the first class was not removed"
				}
			})
			if why != "" {
				c.fail(map[string]any{"stylesheet": p.css, "list": list, "result": got, "why": why})
			}
			if i < 0 {
				continue
			}
			key := ""
			if p.x.key() != "||" || p.y.key() != "||" {
				key = fmt.Sprint(p.x, p.y)
			}
			c.done(key, map[string]any{"stylesheet": p.css, "list": list, "result": got})
		}
		batch = nil
	}
	defer flush()
	try := func(x, y circ) {
		// names are used once per batch, up to a suffix
		n1, n2 := pick(c.rng, namePool), pick(c.rng, namePool)
		for n2 == n1 {
			n2 = pick(c.rng, namePool)
		}
		if len(batch) > 0 {
			n1, n2 = fmt.Sprint(n1, "_", len(batch)), fmt.Sprint(n2, "_", len(batch))
		}
		n := 1 + c.rng.Intn(2)
		var ds []decl
		for i := 0; i < n; i++ {
			ds = append(ds, decl{prop: pick(c.rng, propPool), value: "1px"})
		}
		r1, r2 := rule{classes: []string{n1}, circ: x, decls: ds}, rule{classes: []string{n2}, circ: y, decls: ds}
		css := r1.text(c.rng) + r2.text(c.rng)
		if c.rng.Intn(2) == 0 {
			css = r2.text(c.rng) + "#id { color: red }" + r1.text(c.rng)
		}
		batch = append(batch, pair{x, y, n1, n2, css})
		if len(batch) == 40 {
			flush()
		}
	}
	for i, x := range pool {
		for j, y := range pool {
			if c.more() || (i+j)%7 == 0 {
				try(x, y)
			}
		}
	}
	for c.more() {
		x := genCirc(c.rng, true)
		y := x
		switch c.rng.Intn(6) {
		case 0:
			y = genCirc(c.rng, true)
		case 1:
			y.elem = pick(c.rng, elemPool)
			y.complex = ""
		case 2:
			if len(y.at) > 0 {
				y.at = append([]string{}, y.at[:len(y.at)-1]...)
			} else {
				y.at = []string{pick(c.rng, atPool)}
			}
		case 3:
			if y.complex == "" {
				y.pseudos = append(append([]string{}, y.pseudos...), pick(c.rng, pseudoPool))
			}
		case 4:
			if len(y.at) > 0 {
				y.at = append([]string{}, y.at[1:]...)
			}
		}
		try(x, y)
	}
}

// suffixes returns selector texts, with § where the class goes, of which no two mean the same.
func suffixes(down bool) []string {
	var l []string
	for _, f := range []string{"nth-child", "nth-last-child", "nth-of-type", "nth-last-of-type"} {
		seen := map[string]bool{}
		for a := -9; a <= 9; a++ {
			for b := -40; b <= 40; b++ {
				x, y := a, b
				if down {
					x, y = -a, -b
				}
				if y < -12 && y%7 != 0 || y > 12 && y%9 != 0 {
					continue
				}
				matches := make([]byte, 200)
				for n := 0; n < 250; n++ {
					if i := x*n + y; i > 0 && i <= len(matches) {
						matches[i-1] = 1
					}
				}
				if seen[string(matches)] {
					continue
				}
				seen[string(matches)] = true
				l = append(l, fmt.Sprintf("§:%s(%dn%+d)", f, x, y))
			}
		}
	}
	values := []string{"x", "y", "x y", "xy", "x-y", "abcdefghijkl", "abcdefghijkm", "1", "a]b", "(", ")", "a,b", "a.b", "_", "ab", "ba", "=x", "é", "a b c", "a  b"}
	for _, key := range []string{"title", "data-a", "data-b", "data-a-b", "lang"} {
		l = append(l, fmt.Sprintf("§[%s]", key))
		for _, op := range []string{"=", "!=", "~=", "|=", "^=", "$=", "*="} {
			for _, v := range values {
				if op == "~=" && strings.Contains(v, " ") {
					continue // matches nothing
				}
				l = append(l, fmt.Sprintf("§[%s%s\"%s\"]", key, op, v))
				if strings.ContainsAny(v, "xyab") {
					l = append(l, fmt.Sprintf("§[%s%s\"%s\" i]", key, op, v))
				}
			}
		}
		for _, re := range []string{"x", "x+", "x*", "[xy]", "^x$", "x.y", "a|b"} {
			l = append(l, fmt.Sprintf("§[%s#=%s]", key, re))
		}
	}
	for _, v := range values {
		l = append(l, fmt.Sprintf("§:contains(\"%s\")", v), fmt.Sprintf("§:containsOwn(\"%s\")", v))
	}
	for _, re := range []string{"x", "x+", "x*", "[xy]", "^x$", "x.y", "a|b"} {
		l = append(l, fmt.Sprintf("§:matches(%s)", re), fmt.Sprintf("§:matchesOwn(%s)", re))
	}
	for _, v := range []string{"en", "de", "en-us", "en-gb", "zh-hant", "zh-hans", "zh", "e"} {
		l = append(l, fmt.Sprintf("§:lang(%s)", v))
	}
	simple := []string{":only-child", ":only-of-type", ":empty", ":root", ":link", ":enabled", ":disabled", ":checked", ":visited", ":hover", ":active", ":focus", ":target", ":read-only", ":popover-open", ":input", ":host"}
	for i, p := range simple {
		l = append(l, "§"+p)
		for _, q := range simple[:i] {
			l = append(l, "§"+p+q)
		}
		for _, e := range []string{"after", "before", "placeholder", "marker", "first-line", "first-letter"} {
			l = append(l, "§"+p+"::"+e)
		}
	}
	for _, e := range []string{"after", "before", "placeholder", "marker", "first-line", "first-letter", "backdrop", "cue", "selection"} {
		l = append(l, "§::"+e)
	}
	inner := []string{"div", "p", "#k", "#kk", ".k", ".kk", "[k]", ":hover", ":focus", ":nth-child(2n+1)", "div.k", "div p", "div > p", "div + p", "div ~ p", "p > div", ":not(.k)", ":not(.kk)"}
	lists := append([]string{}, inner...)
	for i, x := range inner {
		y, z, w := inner[(i+1)%len(inner)], inner[(i+5)%len(inner)], inner[(i+9)%len(inner)]
		lists = append(lists, x+", "+y, x+", "+y+", "+z, x+", "+y+", "+z+", "+w)
	}
	for _, f := range []string{"not", "has", "haschild", "is", "where"} {
		for _, x := range lists {
			l = append(l, fmt.Sprintf("§:%s(%s)", f, x))
		}
	}
	parts := []string{"div", "p", "#k", ".k", "[k]", "div:hover", "div::after", "*"}
	for _, comb := range []string{" ", " > ", " + ", " ~ "} {
		for _, x := range parts {
			if !strings.Contains(x, "::") {
				l = append(l, x+comb+"§", x+comb+"§:hover", x+comb+"§::after")
				for _, comb2 := range []string{" ", " > ", " + ", " ~ "} {
					l = append(l, "§"+comb2+"p"+comb+x, "em"+comb2+"§"+comb+x)
				}
			}
			l = append(l, "§"+comb+x, "§:hover"+comb+x, "§[k]"+comb+x)
		}
	}
	return l
}

// allApart merges one class for each of many circumstances, no two the same: all must stay.
func allApart(c *campaign, down bool) {
	sufs := suffixes(down)
	css, list := "", ""
	rules := map[string]string{}
	var names []string
	for i, s := range sufs {
		n := fmt.Sprintf("c%d", i)
		names = append(names, n)
		rules[n] = strings.ReplaceAll(s, "§", "."+n) + " { color: red }\n"
		css += rules[n]
		list += " " + n
	}
	list = list[1:]
	run := func(css, list string) (got string) {
		var err error
		c.guard(map[string]any{"stylesheet": css, "list": list}, func() {
			m := merge.NewMerger(nil, true)
			if err = m.AddRules(strings.NewReader(css), false); err == nil {
				got = m.Merge(list)
			}
		})
		if err != nil {
			c.fail(map[string]any{"stylesheet": css, "why": err.Error()})
		}
		return got
	}
	got := run(css, list)
	if got != list {
		left := map[string]bool{}
		for _, n := range strings.Fields(got) {
			left[n] = true
		}
		// which two?
		for _, n := range names {
			if left[n] {
				continue
			}
			for _, n2 := range names {
				if n2 == n {
					continue
				}
				if two := rules[n] + rules[n2]; run(two, n+" "+n2) != n+" "+n2 {
					c.fail(map[string]any{"stylesheet": two, "list": n + " " + n2, "result": run(two, n+" "+n2), "why": "the rules apply in different circumstances but a class was removed"})
				}
			}
		}
		c.fail(map[string]any{"stylesheet": css, "list": list, "result": got, "why": "no two rules apply in the same circumstance but a class was removed"})
	}
	for i, s := range sufs {
		c.done(s, map[string]any{"rule": rules[names[i]], "result": "kept among all others"})
	}
}
