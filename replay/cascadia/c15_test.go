package cascadia_test

import (
	"fmt"
	"strings"
	"testing"

	"github.com/tylantz/go-tailwind-merge/internal/cascadia"
)

// Random names, escaped and decoded in each way.
func TestVerif(t *testing.T) {
	c := newCampaign(t, "all names of one or two characters of ASCII and some others, then random names of up to 12, escaped by the library, as in stylesheets and by hexadecimal escapes, and decoded; non-trivial: a special character occurs")
	defer c.finish()
	var chars []rune
	for r := '!'; r <= '~'; r++ {
		chars = append(chars, r)
	}
	chars = append(chars, 'é', 'ß', '→', '漢', '😀', '\u00a0', '\u0080', '\uffff')
	special := func(r rune) bool {
		return !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' || r > 127)
	}
	try := func(name string) {
		why, ways := "", map[string]string{}
		trivial := true
		c.guard(map[string]any{"name": name}, func() {
			lead := true // only hyphens so far
			var punct, hex, hex6 strings.Builder
			onlyHyphens := strings.Trim(name, "-") == ""
			for _, r := range name {
				digit := r >= '0' && r <= '9'
				trivial = trivial && !special(r)
				switch {
				case digit && lead:
					fmt.Fprintf(&punct, `\%x `, r)
					lead = false
				case special(r) || r == '-' && onlyHyphens:
					punct.WriteByte('\\')
					punct.WriteRune(r)
					lead = false
				default:
					punct.WriteRune(r)
					lead = lead && r == '-'
				}
				fmt.Fprintf(&hex, `\%X%s`, r, []string{" ", "\t", "\n", "\f", "\r\n", "\r"}[c.rng.Intn(6)])
				fmt.Fprintf(&hex6, `\%06x`, r)
			}
			ways["escaped with backslashes"] = punct.String()
			ways["escaped with hexadecimal numbers"] = hex.String()
			ways["escaped with six-digit hexadecimal numbers"] = hex6.String()
			first := strings.TrimLeft(name, "-")
			if first != "" && !(first[0] >= '0' && first[0] <= '9') {
				ways["escaped by the library"] = strings.TrimPrefix(cascadia.ClassSelector{Class: name}.String(), ".")
			}
			for way, s := range ways {
				for _, prefix := range []string{".", "#"} {
					sel, err := cascadia.Parse(prefix + s)
					if err != nil {
						why = fmt.Sprintf("%s (%q): %v", way, prefix+s, err)
						continue
					}
					if prefix == "#" {
						want, err := cascadia.Parse(`#` + ways["escaped with six-digit hexadecimal numbers"])
						if err != nil || sel != want {
							why = fmt.Sprintf("%s (%q): not the id that it was", way, s)
						}
						continue
					}
					if x, ok := sel.(cascadia.ClassSelector); !ok || x.Class != name {
						why = fmt.Sprintf("%s (%q): the selector parser makes it %#v", way, s, sel)
					}
				}
				if got := cascadia.CssUnescape([]byte(s)); got != name {
					why = fmt.Sprintf("%s (%q): unescaping makes it %q", way, s, got)
				}
			}
		})
		if why != "" {
			c.fail(map[string]any{"name": name, "why": why})
		}
		key := ""
		if !trivial {
			key = name
		}
		c.done(key, map[string]any{"name": name, "forms": ways})
	}
	for _, a := range chars {
		try(string(a))
		for _, b := range chars {
			try(string(a) + string(b))
		}
	}
	for c.more() {
		name := ""
		for n := c.rng.Intn(12); n >= 0; n-- {
			if c.rng.Intn(2) == 0 {
				name += string(rune("abf019-:/"[c.rng.Intn(9)]))
			} else if c.rng.Intn(4) == 0 {
				r := rune(0x80 + c.rng.Intn(0x10ff80))
				if r >= 0xd800 && r < 0xe000 {
					r = 'x'
				}
				name += string(r)
			} else {
				name += string(chars[c.rng.Intn(len(chars))])
			}
		}
		try(name)
	}
}
