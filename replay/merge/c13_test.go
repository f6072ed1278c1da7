package merge_test

import (
	"bytes"
	"testing"

	merge "github.com/tylantz/go-tailwind-merge"
)

var frags = []string{".a", "{", "}", "color", ":", "red", ";", "@media", " ", "(min-width:1px)", "@supports", "@font-face", "@x", ",", ">", "+", "*", "#id", "/*", "*/", "\"", "'",
	"(", ")", "[", "]", "\\", "\\41 ", "!important", "--x", "var(", "url(", "<!--", "-->", "\x00", "\xff", "é", "\n", "%", "1px", "::before", ":hover", ":not(", ":is(", "&", "@", "@media{", "@media{.a{", "a{b:c",
	"@media print {.a{b:c}", "U+26", "|", "||", "~=", "$=", "=", "{}", "{{", "}}", ";}", "@import x;", "@charset \"", "@media print{@media print{", ".a,.b{c:d}"}

// Random byte sequences made of fragments of stylesheets, loaded both ways.
func TestVerif(t *testing.T) {
	c := newCampaign(t, "sequences of up to 40 fragments of CSS or random bytes, also cut off and repeated up to 20000 times, loaded as stylesheet and as inline style; non-trivial: a brace is open at the end")
	defer c.finish()
	m := merge.NewMerger(nil, true)
	for c.more() {
		if c.evals%300 == 299 {
			m = merge.NewMerger(nil, true)
		}
		var b []byte
		for n := c.rng.Intn(40); n >= 0; n-- {
			if c.rng.Intn(30) == 0 {
				b = append(b, byte(c.rng.Intn(256)))
				continue
			}
			f := frags[c.rng.Intn(len(frags))]
			if c.rng.Intn(60) == 0 {
				f = string(bytes.Repeat([]byte(f), c.rng.Intn(50)*c.rng.Intn(50)))
			}
			if c.evals%400 == 399 && c.rng.Intn(10) == 0 && len(f) < 20 {
				f = string(bytes.Repeat([]byte(f), 20000))
			}
			b = append(b, f...)
		}
		if c.rng.Intn(3) == 0 {
			k := genCase(c.rng)
			b = append([]byte(k.Css[0]), b...)
			b = b[:c.rng.Intn(len(b)+1)]
		}
		for _, inline := range []bool{false, true} {
			in := map[string]any{"input": b, "text": string(b), "inline": inline}
			c.guard(in, func() {
				_ = m.AddRules(bytes.NewReader(b), inline)
				m.Merge("a b")
			})
		}
		key := ""
		if bytes.Count(b, []byte("{")) > bytes.Count(b, []byte("}")) && len(b) < 2000 {
			key = string(b)
		}
		s := string(b)
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		c.done(key, s)
	}
}
