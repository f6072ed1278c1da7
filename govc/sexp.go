package main

import "strings"

type sx struct {
	atom string
	kids []*sx
}

func (x *sx) String() string {
	if x.kids == nil {
		return x.atom
	}
	var b strings.Builder
	b.WriteByte('(')
	for i, k := range x.kids {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(k.String())
	}
	b.WriteByte(')')
	return b.String()
}

func parseSexp(s string) *sx {
	p := 0
	var rec func() *sx
	rec = func() *sx {
		for p < len(s) && (s[p] == ' ' || s[p] == '\n') {
			p++
		}
		if p >= len(s) {
			return &sx{}
		}
		if s[p] == '(' {
			p++
			x := &sx{kids: []*sx{}}
			for {
				for p < len(s) && (s[p] == ' ' || s[p] == '\n') {
					p++
				}
				if p >= len(s) {
					return x
				}
				if s[p] == ')' {
					p++
					return x
				}
				x.kids = append(x.kids, rec())
			}
		}
		q := p
		for p < len(s) && s[p] != ' ' && s[p] != '(' && s[p] != ')' && s[p] != '\n' {
			p++
		}
		return &sx{atom: s[q:p]}
	}
	return rec()
}

// atomsOf lists the symbols of a term, each once.
func atomsOf(s string) []string {
	seen := map[string]bool{}
	var out []string
	eachAtom(s, func(a string) {
		if !seen[a] {
			seen[a] = true
			out = append(out, a)
		}
	})
	return out
}

func eachAtom(s string, f func(string)) {
	i := 0
	for i < len(s) {
		c := s[i]
		if c == ' ' || c == '(' || c == ')' || c == '\n' {
			i++
			continue
		}
		if c == ';' {
			for i < len(s) && s[i] != '\n' {
				i++
			}
			continue
		}
		j := i
		for j < len(s) && s[j] != ' ' && s[j] != '(' && s[j] != ')' && s[j] != '\n' {
			j++
		}
		f(s[i:j])
		i = j
	}
}

func replaceAtoms(s string, m map[string]string) string {
	var b strings.Builder
	i := 0
	for i < len(s) {
		c := s[i]
		if c == ' ' || c == '(' || c == ')' || c == '\n' {
			b.WriteByte(c)
			i++
			continue
		}
		j := i
		for j < len(s) && s[j] != ' ' && s[j] != '(' && s[j] != ')' && s[j] != '\n' {
			j++
		}
		if r, ok := m[s[i:j]]; ok {
			b.WriteString(r)
		} else {
			b.WriteString(s[i:j])
		}
		i = j
	}
	return b.String()
}
