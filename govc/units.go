package main

import (
	"strconv"
	"strings"
)

// Unit propagation: the goal (=> r G) of an obligation is refuted with r true, and so are the conditions that r stands for.
// Knowing them lets the script state the facts guarded by them without their guards.

type units struct {
	val   map[string]bool
	order []string
	bad   bool
}

func (g *Gen) units(p *prepared, nfacts int, goal string) *units {
	u := &units{val: map[string]bool{}}
	def := map[string]int{}
	for i := 0; i < nfacts; i++ {
		if p.lhs[i] != "" {
			def[p.lhs[i]] = i
		}
	}
	var set func(u *units, t *sx, v bool)
	split := func(u *units, ks []*sx, v bool) { // one of ks has value v: what all of them imply
		var common *units
		for _, k := range ks {
			w := &units{val: map[string]bool{}}
			for x, y := range u.val {
				w.val[x] = y
			}
			set(w, k, v)
			if w.bad {
				continue
			}
			if common == nil {
				common = w
				continue
			}
			var order []string
			for _, x := range common.order {
				if y, ok := w.val[x]; ok && y == common.val[x] {
					order = append(order, x)
				}
			}
			common.order = order
		}
		if common == nil {
			return
		}
		for _, x := range common.order { // with all that follows from x in each case
			if _, ok := u.val[x]; !ok {
				u.val[x] = common.val[x]
				u.order = append(u.order, x)
			}
		}
	}
	steps := 0
	set = func(u *units, t *sx, v bool) {
		if t.kids == nil {
			if t.atom == "true" || t.atom == "false" || t.atom == "" {
				return
			}
			if w, ok := u.val[t.atom]; ok {
				u.bad = u.bad || w != v
				return
			}
			u.val[t.atom] = v
			u.order = append(u.order, t.atom)
			steps++
			if i, ok := def[t.atom]; ok && steps < 20000 { // cases of cases may be many
				if d := g.parsed(g.facts[i]); len(d.kids) == 3 && d.kids[1].atom == t.atom {
					set(u, d.kids[2], v)
				}
			}
			return
		}
		if len(t.kids) == 0 {
			return
		}
		switch t.kids[0].atom {
		case "and":
			if v {
				for _, k := range t.kids[1:] {
					set(u, k, true)
				}
			}
		case "or":
			if !v {
				for _, k := range t.kids[1:] {
					set(u, k, false)
				}
			} else {
				split(u, t.kids[1:], true)
			}
		case "not":
			set(u, t.kids[1], !v)
		}
	}
	if strings.HasPrefix(goal, "(=> ") {
		if r := head(goal[4:]); r != "" {
			set(u, &sx{atom: r}, true)
		}
	}
	return u
}

// parsed is the fact f as a tree.
func (g *Gen) parsed(f string) *sx {
	if t, ok := g.trees.Load(f); ok {
		return t.(*sx)
	}
	t := parseSexp(f)
	g.trees.Store(f, t)
	return t
}

// head is the atom that s starts with, or "".
func head(s string) string {
	if s == "" || s[0] == '(' {
		return ""
	}
	if i := strings.IndexAny(s, " ()"); i > 0 {
		return s[:i]
	}
	return ""
}

// strip drops the guards of a fact that are known to hold. ok is false if the fact holds trivially.
func (u *units) strip(f string, on map[string]bool) (string, bool) {
	for strings.HasPrefix(f, "(=> ") {
		h := head(f[4:])
		if h == "" {
			break
		}
		v, known := u.val[h]
		if on[h] {
			v, known = true, true
		}
		if !known {
			break
		}
		if !v {
			return "", false
		}
		f = strings.TrimSpace(f[4+len(h) : len(f)-1])
	}
	return f, true
}

// ixAt is off + i, as a term that quantifier patterns match.
func ixAt(off, i string) string { return "(ix " + off + " " + i + ")" }

// negated lists assertions equivalent to the negation of the goal: universally quantified variables become constants, and
// an upper bound q < X of such a constant is split into q < X-1 and q = X-1 (a tautology: solvers do not find the equality
// themselves, which is what relates q to the last step of a loop).
func negated(goal string) (decls, asserts []string) {
	t := parseSexp(goal)
	n := 0
	ints := map[string]bool{}
	var bounds func(a *sx)
	bounds = func(a *sx) {
		if len(a.kids) == 0 {
			return
		}
		if a.kids[0].atom == "and" {
			for _, k := range a.kids[1:] {
				bounds(k)
			}
			return
		}
		if len(a.kids) == 3 && a.kids[0].atom == "<" && ints[a.kids[1].atom] {
			q, x := a.kids[1].atom, a.kids[2].String()
			asserts = append(asserts, "(or (not (< "+q+" "+x+")) (< "+q+" (- "+x+" 1)) (= "+q+" (- "+x+" 1)))")
		}
	}
	for {
		if len(t.kids) == 3 && t.kids[0].atom == "=>" {
			asserts = append(asserts, t.kids[1].String())
			bounds(t.kids[1])
			t = t.kids[2]
			continue
		}
		if len(t.kids) == 3 && t.kids[0].atom == "forall" {
			body := t.kids[2]
			if len(body.kids) > 1 && body.kids[0].atom == "!" {
				body = body.kids[1]
			}
			m := map[string]string{}
			for _, v := range t.kids[1].kids {
				n++
				c := "sk_" + v.kids[0].atom + "!" + itoa(n)
				m[v.kids[0].atom] = c
				decls = append(decls, "(declare-const "+c+" "+v.kids[1].String()+")")
				if v.kids[1].atom == "Int" {
					ints[c] = true
				}
			}
			t = parseSexp(replaceAtoms(body.String(), m))
			continue
		}
		break
	}
	return decls, append(asserts, "(not "+t.String()+")")
}

func itoa(n int) string { return strconv.Itoa(n) }

// touch mentions, for each term f(..., n+1, ...) of a specification function in the goal, the term f(..., n, ...), which the
// axioms that define f by steps need as a trigger.
func (g *Gen) touch(b *strings.Builder, goal []string) {
	res := map[string]string{}
	sort := func(f string) string {
		if len(res) == 0 {
			for _, d := range g.decls {
				for _, line := range strings.Split(d, "\n") {
					if strings.HasPrefix(line, "(declare-fun f_") {
						if t := parseSexp(line); len(t.kids) == 4 {
							res[t.kids[1].atom] = t.kids[3].String()
						}
					}
				}
			}
		}
		return res[f]
	}
	seen := map[string]bool{}
	decl := map[string]bool{}
	var walk func(t *sx, bound map[string]bool)
	walk = func(t *sx, bound map[string]bool) {
		if len(t.kids) == 0 {
			return
		}
		if h := t.kids[0].atom; h == "forall" || h == "exists" {
			nb := map[string]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, v := range t.kids[1].kids {
				nb[v.kids[0].atom] = true
			}
			walk(t.kids[2], nb)
			return
		}
		for _, k := range t.kids {
			walk(k, bound)
		}
		if !strings.HasPrefix(t.kids[0].atom, "f_") {
			return
		}
		var c *sx
		for i, k := range t.kids {
			if len(k.kids) == 3 && k.kids[0].atom == "+" && k.kids[2].atom == "1" {
				c = &sx{kids: append([]*sx{}, t.kids...)}
				c.kids[i] = k.kids[1]
			}
		}
		if c == nil {
			return
		}
		s := c.String()
		if seen[s] {
			return
		}
		seen[s] = true
		for _, a := range atomsOf(s) {
			if bound[a] {
				return
			}
		}
		so := sort(t.kids[0].atom)
		if so == "" {
			return
		}
		if !decl[so] {
			decl[so] = true
			b.WriteString("(declare-fun touch_" + sanitize(so) + " (" + so + ") Bool)\n")
		}
		b.WriteString("(assert (touch_" + sanitize(so) + " " + s + "))\n")
	}
	for _, a := range goal {
		walk(parseSexp(a), nil)
	}
}
